------------------------------ MODULE MacrosMC ------------------------------
(* Enumerates macro invocations, valid and faulty, with their meaning.       *)
EXTENDS Macros, Json
CONSTANTS Big, Part    \* Part: "valid" | "faulty"
VARIABLE c

T(s) == [v |-> "text", form |-> "lit", s |-> s]
F(form, s) == [v |-> "text", form |-> form, s |-> s]
B(b) == [v |-> "bool", b |-> b, form |-> "lit"]
Arr(xs) == [v |-> "arr", xs |-> xs]
Obj(fs) == [v |-> "obj", fs |-> fs]
Enum(p) == [v |-> "enum", p |-> p]
Native(n) == [v |-> "native", n |-> n]
Num(n) == [v |-> "int", n |-> n]
One(n, x) == << <<n, x>> >>
Opt(n, xs) == {<<>>} \cup {One(n, x) : x \in xs}

\* every way to write a text; those that give an owned text can also stand in arrays
Owned == {"lit", "string", "call", "method"}
Forms == Owned \cup {"var", "borrow", "borrowstring", "const", "path"}
Texts0 == {"", "a", "U+0022", "U+005C", "{}", "U+000A", "U+00E9U+6F22", "#x", "%", "U+0027", "null", "//", "U+005Cn", "U+FEFFx", "U+0000", " a ", "{{a}}", "a,b"}

RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Append(Reverse(Tail(s)), Head(s))

(************************* definitions and details *************************)
Leaf == Obj(<<>>)
Subjects == {Obj(<<>>), Obj(One("given_name", Leaf)), Obj(<< <<"given_name", Leaf>>, <<"family_name", Leaf>> >>),
             Obj(<< <<"address", Obj(<< <<"street", Leaf>>, <<"city", Leaf>> >>)>>, <<"email", Leaf>> >>),
             Obj(One("a", Obj(One("b", Obj(<< <<"c", Leaf>>, <<"d", Leaf>> >>)))))}
\* wide, deep and oddly named claims
Letter == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l">>
RECURSIVE DeepClaim(_)
DeepClaim(n) == IF n = 0 THEN Leaf ELSE Obj(<< <<"a", DeepClaim(n - 1)>>, <<"b", Leaf>> >>)
OddSubjects == {Obj([i \in 1..n |-> <<Letter[i], IF i % 4 = 0 THEN Obj(One("z", Leaf)) ELSE Leaf>>]) : n \in {3, 5, 8, 12}}
               \cup {DeepClaim(n) : n \in {1, 3, 4, 6}}
               \cup {Obj(One(s, Leaf)) : s \in Texts0} \cup {Obj(One("a", Obj(One(s, Obj(One("a", Leaf)))))) : s \in Texts0 \ {""}}
               \cup {Obj(<< <<"a", Obj(One("a", Leaf))>>, <<"b", Obj(One("a", Leaf))>> >>)}
Types == {Arr(<<T("VerifiableCredential")>>), Arr(<<T("VerifiableCredential"), T("EmployeeIDCredential")>>), Arr(<<T("b"), T("a"), T("b")>>)}
Defs(ctx) == {Obj(t \o s \o x) : t \in Opt("type", Types), s \in Opt("credentialSubject", Subjects), x \in (IF ctx THEN Opt("@context", {Arr(<<T("https://c/1"), T("https://c/2")>>)}) ELSE {<<>>})}
TypedDefs == {Obj(One("type", t) \o s) : t \in Types, s \in Opt("credentialSubject", Subjects)}
Kind == One("type", T("openid_credential"))
ById(id, d) == Obj(Kind \o One("credential_configuration_id", id) \o d)
ByFormat(d) == Obj(Kind \o One("format", T("jwt_vc_json")) \o One("credential_definition", d))
Locations == One("locations", Arr(<<T("https://l/1"), T("https://l/2")>>))
DetailSet(ctx) ==
  {ById(T("EmployeeID_JWT"), d) : d \in Opt("credential_definition", Defs(ctx))} \cup {ByFormat(d) : d \in TypedDefs}
  \cup {ById(F(f, "EmployeeID_JWT"), <<>>) : f \in Owned} \cup {ById(T(s), <<>>) : s \in Texts0}
  \cup {ById(T("EmployeeID_JWT"), One("credential_definition", Obj(One("credentialSubject", s)))) : s \in OddSubjects}
  \cup {ByFormat(Obj(One("type", CHOOSE t \in Types : Len(t.xs) = 2) \o One("credentialSubject", s))) : s \in OddSubjects}
  \cup {ByFormat(Obj(One("type", Arr([i \in 1..n |-> T(Letter[1 + (i % 3)])])))) : n \in {0, 5, 9}}
  \cup {ByFormat(Obj(One("type", Arr(<<F(f, "s"), T("VerifiableCredential")>>)))) : f \in Owned}
  \cup {Obj(One("type", F(f, "openid_credential")) \o One("credential_configuration_id", T("x"))) : f \in {"var", "const", "call", "method"}}
  \cup {ById(T("x"), One("locations", Arr([i \in 1..n |-> T(Letter[i])]))) : n \in {0, 1, 6}}
  \cup {ById(T("EmployeeID_JWT"), One("credential_definition", d) \o Locations) : d \in Defs(ctx)} \cup {Obj(ByFormat(d).fs \o Locations) : d \in TypedDefs}
  \cup {Obj(Reverse(x.fs)) : x \in {ById(T("EmployeeID_JWT"), One("credential_definition", d) \o Locations) : d \in {Obj(Reverse(y.fs)) : y \in Defs(ctx)}}}
  \cup {ById(T("EmployeeID_JWT"), Locations), Obj(ByFormat(CHOOSE d \in TypedDefs : TRUE).fs \o Locations)}
D1 == ById(T("EmployeeID_JWT"), <<>>)
D2 == ById(T("Developer_JWT"), One("credential_definition", Obj(One("credentialSubject", Obj(<< <<"address", Obj(One("city", Leaf))>>, <<"email", Leaf>> >>)))))
D3 == ByFormat(Obj(One("type", Arr(<<T("VerifiableCredential"), T("EmployeeIDCredential")>>))))
Lists == {Arr(<<>>), Arr(<<D1>>), Arr(<<D1, D2>>), Arr(<<D2, D1>>), Arr(<<D3, D1, D2>>), Arr(<<D1, D1>>), Arr(<<D1, D2, D3, D2>>), Arr(<<D3, D3, D2, D1, D1, D3, D2>>)}

(************************* valid invocations *******************************)
OfferBase == One("credential_issuer", T("http://vercre.io")) \o One("credential_configuration_ids", Arr(<<T("EmployeeID_JWT")>>))
Grants == {Arr(<<T(AuthGrant), T(AuthGrant)>>), Arr(<<T(PreGrant), T(AuthGrant), T(PreGrant), T(AuthGrant)>>), Arr(<<>>), Arr(<<T(PreGrant)>>), Arr(<<T(AuthGrant)>>), Arr(<<T(PreGrant), T(AuthGrant)>>), Arr(<<T(AuthGrant), T(PreGrant)>>)}
Sends == {Enum("by_val"), Enum("by_ref"), T("by_ref"), T("by_val")}
OfferOptional == {s \o g \o t \o d : s \in Opt("subject_id", {T("normal_user")}), g \in Opt("grant_types", Grants),
                                     t \in Opt("tx_code_required", {B(TRUE), B(FALSE)}), d \in Opt("send_type", Sends)}
AuthBase == One("credential_issuer", T("http://vercre.io")) \o One("response_type", T("code")) \o One("client_id", T("96bfb9cb")) \o One("code_challenge", T("abc"))
            \o One("code_challenge_method", T("S256")) \o One("subject_id", T("normal_user"))
AuthOpts == << <<"redirect_uri", T("http://localhost/cb")>>, <<"state", T("1234")>>, <<"scope", T("EmployeeIDCredential")>>, <<"resource", T("http://res")>>,
               <<"wallet_issuer", T("http://wallet")>>, <<"user_hint", T("me")>>, <<"issuer_state", T("st")>>, <<"authorization_details", Arr(<<D1>>)>> >>
Masks == {m \in SUBSET (1..8) : Big \/ Cardinality(m) \in {0, 1, 2, 7, 8}}
RECURSIVE Pick(_, _)
Pick(s, m) == IF s = <<>> THEN <<>> ELSE Pick(SubSeq(s, 1, Len(s) - 1), m) \o (IF Len(s) \in m THEN <<s[Len(s)]>> ELSE <<>>)
PreBase == One("credential_issuer", T("http://vercre.io")) \o One("grant_type", T(PreGrant)) \o One("pre-authorized_code", T("ABCDEF"))
CodeBase == One("credential_issuer", T("http://vercre.io")) \o One("grant_type", T(AuthGrant)) \o One("code", T("ABCDEF")) \o One("code_verifier", T("ver"))
TokenSet == {PreBase \o i \o t \o d : i \in Opt("client_id", {T("me")}), t \in Opt("tx_code", {T("123456")}), d \in Opt("authorization_details", Lists)}
            \cup {CodeBase \o i \o t \o d : i \in Opt("client_id", {T("me")}), t \in Opt("redirect_uri", {T("http://localhost/cb")}), d \in Opt("authorization_details", Lists)}
CredBase == One("credential_issuer", T("http://vercre.io")) \o One("access_token", T("tok"))
ProofOf(x) == Obj(<< <<"proof_type", T("jwt")>>, <<"jwt", x>> >>)
CredDefs == TypedDefs \cup {Obj(One("type", CHOOSE t \in Types : Len(t.xs) = 2) \o One("credentialSubject", s)) : s \in OddSubjects}
            \cup {Obj(One("type", Arr(<<F(f, "s"), T("VerifiableCredential")>>))) : f \in Owned}
            \cup {Obj(One("credentialSubject", Obj(One("a", Leaf))) \o One("type", Arr([i \in 1..n |-> T(Letter[1 + (i % 3)])]))) : n \in {0, 5, 9}}
Ways == {One("credential_identifier", T("PHLEmployeeID"))} \cup {One("format", T("jwt_vc_json")) \o One("credential_definition", d) : d \in CredDefs}
CredSet == {CredBase \o w \o p \o e : w \in Ways, p \in Opt("proof", {ProofOf(T("eyJ"))}), e \in Opt("credential_response_encryption", {Native("enc")})}

\* replace the value of one field
With(fs, n, x) == [i \in 1..Len(fs) |-> IF fs[i][1] = n THEN <<n, x>> ELSE fs[i]]
Without(fs, n) == SelectSeq(fs, LAMBDA f : f[1] # n)
FullOffer == OfferBase \o One("subject_id", T("normal_user")) \o One("grant_types", Arr(<<T(PreGrant)>>)) \o One("tx_code_required", B(TRUE)) \o One("send_type", Enum("by_ref"))
FullAuth == AuthBase \o AuthOpts
FullPre == PreBase \o One("client_id", T("me")) \o One("tx_code", T("123456")) \o One("authorization_details", Arr(<<D1, D2>>))
FullCode == CodeBase \o One("client_id", T("me")) \o One("redirect_uri", T("http://localhost/cb")) \o One("authorization_details", Arr(<<D2>>))
FullCred == CredBase \o One("credential_identifier", T("PHLEmployeeID")) \o One("proof", ProofOf(T("eyJ"))) \o One("credential_response_encryption", Native("enc"))
FormatCred == CredBase \o One("format", T("jwt_vc_json")) \o One("credential_definition", CHOOSE d \in TypedDefs : Len(d.fs) = 2) \o One("proof", ProofOf(T("eyJ")))
Full(m) == CASE m = "create_offer_request" -> {FullOffer} [] m = "authorization_request" -> {FullAuth} [] m = "token_request" -> {FullPre, FullCode}
             [] m = "credential_request" -> {FullCred, FormatCred}
Free == {"credential_issuer", "subject_id", "redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state", "client_id", "code_challenge",
         "pre-authorized_code", "tx_code", "code", "code_verifier", "access_token", "credential_identifier"}
Written(m) == UNION {UNION {{With(fs, n, F(f, "t1")) : f \in Forms} \cup {With(fs, n, T(s)) : s \in Texts0} : n \in Names(fs) \cap Free} : fs \in Full(m)}
Rotated(s) == {SubSeq(s, i + 1, Len(s)) \o SubSeq(s, 1, i) : i \in 1..Len(s)}
Orders(m) == UNION {Rotated(fs) \cup {Reverse(fs)} : fs \in Full(m)}

Valid(m, g) ==
  CASE g = "written" -> Written(m)
    [] g = "order" -> Orders(m)
    [] g = "shapes" ->
         (CASE m = "create_offer_request" ->
                 {OfferBase \o o : o \in OfferOptional}
                 \cup {With(OfferBase, "credential_configuration_ids", Arr(xs)) : xs \in {<<T("a"), T("b")>>, <<T("b"), T("a"), T("b")>>, <<F("string", "s"), F("call", "c"), F("method", "m"), T("l")>>, [i \in 1..9 |-> T(Letter[i])], [i \in 1..17 |-> T(Letter[1 + (i % 5)])]}
                                                                                        \cup {<<T(s)>> : s \in Texts0}}
                 \cup {With(FullOffer, "tx_code_required", [v |-> "bool", b |-> b, form |-> "var"]) : b \in BOOLEAN}
            [] m = "authorization_request" -> {AuthBase \o Pick(AuthOpts, k) : k \in Masks}
            [] m = "token_request" -> TokenSet
            [] m = "credential_request" -> CredSet \cup {CredBase \o One("credential_identifier", T("x")) \o One("proof", ProofOf(F(f, "jj"))) : f \in Forms})
    [] g = "details" ->
         (CASE m = "authorization_request" -> {AuthBase \o One("authorization_details", Arr(<<d>>)) : d \in DetailSet(FALSE)} \cup {AuthBase \o One("authorization_details", l) : l \in Lists}
            [] m = "token_request" -> {PreBase \o One("authorization_details", Arr(<<d>>)) : d \in DetailSet(TRUE)}
                                      \cup (IF Big THEN {CodeBase \o One("authorization_details", Arr(<<d, D1>>)) : d \in DetailSet(TRUE)} ELSE {})
            [] OTHER -> {})

(************************* faulty invocations ******************************)
\* every field replaced by something of another shape
Shapes == {Num(5), B(TRUE), Arr(<<>>), Arr(<<T("a")>>), Arr(<<Obj(<<>>)>>), Obj(<<>>), Obj(One("a", T("b"))), T("text"), T("")}
Swapped(fs) == UNION {{With(fs, n, x) : x \in Shapes} : n \in Names(fs)}
Dropped(fs) == {Without(fs, n) : n \in Names(fs)}
\* texts that only look like s
Near(s) == {s \o "x", s \o " ", " " \o s, s \o "/", "x" \o s, s \o s, s \o "_ld", s \o "-ld"}
BadGrants == Near(PreGrant) \cup Near(AuthGrant) \cup {"implicit", "password", "", "Authorization_code", "AUTHORIZATION_CODE", "pre-authorized_code", "authorization-code", "authorization", "code", "client_credentials", "refresh_token",
              "urn:ietf:params:oauth:grant-type:pre-authorized_codes", "URN:IETF:PARAMS:OAUTH:GRANT-TYPE:PRE-AUTHORIZED_CODE", "urn:ietf:params:oauth:grant-type:pre_authorized_code", "urn:ietf:params:oauth:grant-type:"}
BadFormats == Near("jwt_vc_json") \cup {"ldp_vc", "mso_mdoc", "vc+sd-jwt", "", "JWT_VC_JSON", "Jwt_Vc_Json", "jwt_vc", "jwt_vc_jso", "jwt-vc-json", "jwt_vc_json_ld", "jwt"}
BadProofs == Near("jwt") \cup {"cwt", "ldp_vp", "", "JWT", "Jwt", "jw", "jwt_vp"}
BadTypes == Near("openid_credential") \cup {"", "OPENID_CREDENTIAL", "openid", "openid-credential", "openid_credentials", "OpenIdCredential"}
Added(fs) == {One("zz", x) \o fs : x \in Shapes \cup {B(FALSE), Native("enc"), Enum("by_ref"), F("var", "x"), F("call", "x")}}
             \cup {fs \o One(n, T("x")) : n \in {"", "_foo", "__", "x-foo", "X_foo", "$schema", "@context", "//", "comment", "foo.bar", "fo o", "credential_Issuer", "credential-issuer", "grantType", "U+00E9"}}
             \cup {fs \o One(n, T("x")) : n \in {"foo", "Client_id", "grant_types", "tx_code", "redirect_uri", "code", "format", "credential_definition", "proofs", "state", "scope",
                                            "credential_issuer_", "pre-authorized_code", "authorization_detail", "client_assertion", "credential_identifier", "type", "request_uri"} \ Names(fs)}
BadDetails(good) ==
  LET fs == good.fs IN
  {Obj(x) : x \in Dropped(fs) \cup UNION {{With(fs, n, y) : y \in {Num(5), B(TRUE), Arr(<<>>), Obj(<<>>), T("other")}} : n \in Names(fs) \ {"credential_definition"}}}
BadDefs == {Num(5), B(TRUE), Arr(<<>>), T("x"), Obj(<<>>), Obj(One("credentialSubject", Leaf)), Obj(One("type", T("x"))), Obj(One("type", Arr(<<Num(5)>>))),
            Obj(<< <<"type", Arr(<<T("x")>>)>>, <<"credentialSubject", T("x")>> >>), Obj(<< <<"type", Arr(<<T("x")>>)>>, <<"credentialSubject", Arr(<<Leaf>>)>> >>),
            Obj(<< <<"type", Arr(<<T("x")>>)>>, <<"credentialSubject", B(TRUE)>> >>)}
Faulty(m, g) ==
  CASE g = "swap" -> UNION {Swapped(fs) : fs \in Full(m)}
    [] g = "drop" -> UNION {Dropped(fs) : fs \in Full(m)}
                     \cup (IF Big THEN UNION {UNION {Dropped(x) : x \in Dropped(fs)} : fs \in Full(m)} ELSE {})
                     \cup (CASE m = "create_offer_request" -> Dropped(OfferBase) [] m = "authorization_request" -> Dropped(AuthBase)
                             [] m = "token_request" -> Dropped(PreBase) \cup Dropped(CodeBase)
                             [] m = "credential_request" -> Dropped(CredBase \o One("credential_identifier", T("x"))) \cup {CredBase})
    [] g = "add" -> UNION {Added(fs) : fs \in Full(m)}
                    \cup (CASE m = "create_offer_request" -> Added(OfferBase) [] m = "authorization_request" -> Added(AuthBase) [] m = "token_request" -> Added(PreBase) \cup Added(CodeBase)
                            [] m = "credential_request" -> Added(CredBase \o One("credential_identifier", T("x"))))
    [] g = "each" -> UNION {Dropped(fs) \cup {One("foo", T("x")) \o fs} \cup (IF Big THEN Swapped(fs) ELSE {}) : fs \in Valid(m, "shapes")}
    [] g = "nested" ->
         (CASE m = "create_offer_request" ->
                 {With(FullOffer, "grant_types", Arr(x)) : x \in {<<T(y)>> : y \in BadGrants} \cup {<<T(AuthGrant), T(y), T(PreGrant)>> : y \in BadGrants} \cup {<<T("implicit")>>, <<T(PreGrant), T("password")>>, <<T("Authorization_code")>>, <<T("")>>, <<T(AuthGrant), T("pre-authorized_code")>>, <<Num(1)>>, <<B(TRUE)>>}}
                 \cup {With(FullOffer, "credential_configuration_ids", Arr(x)) : x \in {<<Num(1)>>, <<T("a"), B(TRUE)>>, <<Obj(<<>>)>>, <<Arr(<<T("a")>>)>>}}
            [] m \in {"authorization_request", "token_request"} ->
                 LET base == IF m = "authorization_request" THEN AuthBase ELSE PreBase
                     at(x) == base \o One("authorization_details", x)
                 IN {at(Arr(<<d>>)) : d \in BadDetails(D1) \cup BadDetails(D3)} \cup {at(Arr(<<D1, D3, D2, d>>)) : d \in BadDetails(D3)} \cup {at(Arr(<<d, d>>)) : d \in BadDetails(D1)} \cup {at(Arr(<<D1, d>>)) : d \in BadDetails(D1) \cup BadDetails(D3)}
                    \cup {at(Arr(<<d, D2>>)) : d \in {T("x"), Num(5), Arr(<<D1>>)}}
                    \cup {at(Arr(<<ByFormat(d)>>)) : d \in BadDefs}
                    \cup {at(Arr(<<ById(T("x"), One("credential_definition", d))>>)) : d \in BadDefs}
                    \cup {at(Arr(<<Obj(Kind \o One("format", T(f)) \o One("credential_definition", Obj(One("type", Arr(<<T("x")>>)))))>>)) : f \in BadFormats}
                    \cup {at(Arr(<<Obj(One("type", T(f)) \o One("credential_configuration_id", T("x")))>>)) : f \in BadTypes}
                    \cup (IF m = "token_request" THEN UNION {{With(fs, "grant_type", T(y)) : y \in BadGrants} : fs \in {PreBase, CodeBase, FullPre, FullCode}} ELSE {})
            [] m = "credential_request" ->
                 {With(FullCred, "proof", p) : p \in {Obj(x) : x \in Dropped(ProofOf(T("j")).fs)} \cup {Obj(With(ProofOf(T("j")).fs, "proof_type", x)) : x \in {T(y) : y \in BadProofs} \cup {Num(1), F("var", "jwx"), F("string", "jwx")}}
                                                      \cup {Obj(With(ProofOf(T("j")).fs, "jwt", x)) : x \in {Num(1), B(TRUE), Arr(<<T("j")>>), Obj(<<>>)}} \cup {T("j"), Arr(<<ProofOf(T("j"))>>)}}
                 \cup {With(FormatCred, "format", T(f)) : f \in BadFormats}
                 \cup {With(FormatCred, "credential_definition", d) : d \in BadDefs})

Macro == {"create_offer_request", "authorization_request", "token_request", "credential_request"}
Groups == IF Part = "valid" THEN {"written", "order", "shapes", "details"} ELSE {"swap", "drop", "add", "nested", "each"}
Init == c \in [k : {"group"}, m : Macro, g : Groups]
Next == /\ c.k = "group"
        /\ \/ Part = "valid" /\ \E fs \in Valid(c.m, c.g) : c' = [k |-> "case", m |-> c.m, g |-> c.g, fs |-> fs]
           \/ Part = "faulty" /\ \E fs \in Faulty(c.m, c.g) : c' = [k |-> "case", m |-> c.m, g |-> c.g, fs |-> fs]
Spec == Init /\ [][Next]_c

M == Meaning(c.m, c.fs)
(* on the model: valid invocations are built, from fields in any order; what is left out takes its default *)
ValidBuilt == c.k = "case" /\ Part = "valid" => M.ok
OrderIrrelevant == c.k = "case" => Meaning(c.m, Reverse(c.fs)) = M
\* dropping a field either is refused by naming it or leaves an optional part out; adding never goes unnoticed
AddedRefused == c.k = "case" /\ c.g = "add" /\ M.ok => c.fs[Len(c.fs)][1] \in DOMAIN M.x
DroppedNamed == c.k = "case" /\ c.g = "drop" /\ ~M.ok => \A e \in M.errs : e.field # ""
Emit == c.k = "case" => PrintT(ToJson([m |-> c.m, g |-> c.g, fs |-> c.fs, ok |-> M.ok, req |-> M.x, errs |-> M.errs]))
=============================================================================
