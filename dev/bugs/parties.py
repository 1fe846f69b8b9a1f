TOK = "vercre-issuer/src/token.rs"
CRE = "vercre-issuer/src/credential.rs"
RSP = "vercre-verifier/src/response.rs"
HCR = "vercre-holder/src/issuance/credentials.rs"
HDE = "vercre-holder/src/issuance/deferred.rs"
HPR = "vercre-holder/src/presentation/present.rs"
OIS = "crates/openid/src/issuer.rs"
BIT = "crates/status/src/bitstring.rs"
MSO = "crates/iso-mdl/src/mso.rs"

CFG = {"pre": True, "code": True, "anon": True, "par": False, "scopes": True, "resp": True, "methods": True}


def issuer(*calls, pend=()):
    return [{"start": CFG, "pend": list(pend), "expunge": False, "hist": [{"a": a, "n": i + 1} for i, a in enumerate(calls)], "tries": []}]


def offer(tx=False, ids=("A",), grants=("pre",)):
    return {"op": "create_offer", "issuer": "i1", "ids": list(ids), "grants": list(grants), "subject": "alice", "tx": tx, "send": "val"}


def pre(n, pin="none"):
    return {"op": "token", "grant": "pre", "key": ["code", n], "pin": pin, "client": "c1", "redirect": "none", "ver": "none", "issuer": "i1", "narrow": []}


AUTH = {"op": "authorize", "via": "object", "par": 0, "req": {"issuer": "i1", "client": "c1", "redirect": "r1", "ch": "v1", "subject": "alice", "istate": [], "details": [{"by": "id", "cfg": "A", "claims": "none"}], "scope": "none", "state": "st"}}


def code(n, redirect="r1"):
    return {"op": "token", "grant": "code", "key": ["acode", n], "pin": "none", "client": "c1", "redirect": redirect, "ver": "v1", "issuer": "i1", "narrow": []}


def cred(tok, nonce, by="format", what="A", proofs=None, form="one"):
    return {"op": "credential", "issuer": "i1", "tok": ["tok", tok], "by": by, "what": what, "claims": "all", "form": form, "proofs": proofs or [{"by": "h1", "nonce": nonce, "flaw": "none"}]}


def tick(d):
    return {"op": "tick", "d": d}


def later(tok, n):
    return {"op": "deferred", "issuer": "i1", "tok": ["tok", tok], "txn": n}


def verifier(*calls):
    return [{"expunge": False, "hist": [{"a": a, "n": i + 1} for i, a in enumerate(calls)], "tries": []}]


def ask(*descs):
    return {"op": "create", "client": "v1", "flow": "cross", "descs": list(descs)}


def answer(k, vps, maps):
    return {"op": "response", "state": k, "resp": {"tok": "list", "vps": [{"by": "h1", "sig": "ok", "nonce": k, "creds": [{"typ": t, "sig": "ok", "until": u, "role": "x"} for t, u in v]} for v in vps],
                                                  "sub": "given", "def": k, "map": maps}}


def at(i, vp, k, path="at"):
    return {"id": i, "fmt": "jwt_vc_json", "vp": vp, "i": k, "path": path}


def e2e(*calls, pend=()):
    return [{"pend": [list(p) for p in pend], "hist": [{"a": a, "n": i + 1} for i, a in enumerate(calls)], "tries": []}]


ALL = {"any": True, "list": []}
SHOW = "h = ans[0]['hist']\nprint([('refused' if 'err' in x else 'ok') for x in h])\n"

BUGS = {
 "iss-code-kept-on-refusal": dict(property="C11", needs="a refused redemption of a code followed by a right one",
   breaks="a pre-authorized or authorization code whose redemption was refused can be tried again (so a PIN can be guessed)",
   edits=[(TOK, '''    // authorization code is one-time use
    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging authorizaiton state: {e}")))?;

    let ctx = Context { state };

    ctx.verify(&provider, &request).await?;
''', '''    let ctx = Context { state };

    ctx.verify(&provider, &request).await?;

    // authorization code is one-time use
    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging authorizaiton state: {e}")))?;

''')], demo=("kit", ("issuer", issuer(offer(True), pre(1, "wrong"), pre(1, "right")), SHOW + "assert 'err' not in h[0] and 'err' in h[1] and 'err' in h[2]"))),
 "iss-redirect-optional": dict(property="C12", needs="an authorization code granted with a redirect URI, redeemed without one",
   breaks="an authorization code can be redeemed without the redirect URI it was granted for",
   edits=[(TOK, "if redirect_uri != &auth_state.redirect_uri {", "if redirect_uri.is_some() && redirect_uri != &auth_state.redirect_uri {")],
   demo=("kit", ("issuer", issuer(AUTH, code(1, "none")), SHOW + "assert 'err' not in h[0] and 'err' in h[1]"))),
 "iss-nonce-kept-by-format": dict(property="C15", needs="two credential requests by format with one proof",
   breaks="the c_nonce does not change after a credential requested by format, so its proof is accepted again",
   edits=[(CRE, "        token_state.c_nonce = gen::nonce();\n", "        if !matches!(request.credential, CredentialIssuance::Format(_)) {\n            token_state.c_nonce = gen::nonce();\n        }\n")],
   demo=("kit", ("issuer", issuer(offer(), pre(1), cred(2, 2), cred(2, 2)), SHOW + "assert 'err' not in h[2] and 'err' in h[3]"))),
 "iss-many-proofs-type": dict(property="C15", needs="several proofs, one of which is not a proof JWT",
   breaks="the type of a proof is checked only when it comes alone",
   edits=[(CRE, "                if jwt.header.typ != Type::Proof {", "                if proof_jwts.len() == 1 && jwt.header.typ != Type::Proof {")],
   demo=("kit", ("issuer", issuer(offer(), pre(1), cred(2, 2, form="many", proofs=[{"by": "h1", "nonce": 2, "flaw": "none"}, {"by": "h1", "nonce": 2, "flaw": "typ"}])), SHOW + "assert 'err' not in h[1] and 'err' in h[2]"))),
 "iss-deferred-short": dict(property="C13", needs="a deferred transaction collected between 5 and 15 minutes after it was deferred",
   breaks="deferred transactions expire after 5 minutes, before the access token they belong to",
   edits=[(CRE, '''                credential_request: request,
            }),
            expires_at: Utc::now() + Expire::Access.duration(),''', '''                credential_request: request,
            }),
            expires_at: Utc::now() + Expire::Authorized.duration(),''')],
   demo=("kit", ("issuer", issuer(offer(), pre(1), cred(2, 2), tick(400), {"op": "ready", "subject": "alice", "id": "a1"}, {"op": "ready", "subject": "alice", "id": "a2"}, later(2, 3), pend=[["alice", "a1"], ["alice", "a2"]]), SHOW + "assert 'err' not in h[2] and 'err' not in h[6], h[6]"))),
 "ver-first-of-many": dict(property="C22", needs="a submission whose path selects more than one credential",
   breaks="a path that selects several credentials is taken to mean the first, so a descriptor is not mapped to exactly one",
   edits=[(RSP, "let Ok(vc_node) = jpath.query(&vp_val).exactly_one() else {", "let Some(vc_node) = jpath.query(&vp_val).first() else {")],
   demo=("kit", ("verifier", verifier(ask("A"), answer(1, [[("CredA", "none"), ("CredA", "none")]], [at("A", 1, 1, "all")])), SHOW + "assert 'err' not in h[0] and 'err' in h[1]"))),
 "ver-many-tokens-kept": dict(property="C23", needs="a response made of several presentations, sent twice",
   breaks="a request answered with several presentations stays open and can be answered again",
   edits=[(RSP, '''    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
''', '''    if request.vp_token.as_ref().is_some_and(|vps| vps.len() == 1) {
        StateStore::purge(&provider, state_key)
            .await
            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
    }
''')], demo=("kit", ("verifier", verifier(ask("A", "B"), *[answer(1, [[("CredA", "none")], [("CredB", "none")]], [at("A", 1, 1), at("B", 2, 1)])] * 2), SHOW + "assert 'err' not in h[1] and 'err' in h[2]"))),
 "hol-deferred-forgotten": dict(property="C25", needs="collecting a deferred credential that is still pending, then saving",
   breaks="asking for a deferred credential that is still pending forgets it, so saving ends the flow and it can never be collected",
   edits=[(HDE, '''    issuance.deferred.remove(&request.transaction_id);
''', '''    issuance.deferred.remove(&request.transaction_id);
    StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await?;
''')], demo=("kit", ("e2e", e2e({"op": "make", "subject": "alice", "cfgs": ["A"], "grants": "pre", "send": "val"}, {"op": "take", "w": "w1", "offer": 1}, {"op": "accept", "flow": 2, "acc": ALL}, {"op": "token", "flow": 2},
        {"op": "collect", "flow": 2, "ids": ALL, "fmt": "none"}, {"op": "defer", "flow": 2, "tx": {"id": "a2", "k": 5}}, {"op": "save", "flow": 2}, {"op": "ready", "subject": "alice", "id": "a2"},
        {"op": "defer", "flow": 2, "tx": {"id": "a2", "k": 5}}, {"op": "save", "flow": 2}, pend=[["alice", "a2"]]), SHOW + "assert 'err' in h[5] and 'err' not in h[8] and 'err' not in h[9] and len(h[9]['held']['w1']) == 2"))),
 "oid-absent-set": dict(property="C29", needs="a mandatory claim nested in a set that the request leaves out altogether",
   breaks="mandatory claims nested in a set are required only when some claim of the set is requested",
   edits=[(OIS, '''                    #[allow(clippy::or_fun_call)]
                    if let Claim::Set(req_nested) =
                        requested.get(key).unwrap_or(&Claim::Set(HashMap::new()))
                    {
                        Self::claims_required(req_nested, sup_nested)?;
                    } else {
                        return Err(anyhow!("{key} claim is not supported"));
                    }''', '''                    match requested.get(key) {
                        Some(Claim::Set(req_nested)) => {
                            Self::claims_required(req_nested, sup_nested)?;
                        }
                        Some(Claim::Entry(_)) => {
                            return Err(anyhow!("{key} claim is not supported"));
                        }
                        None => {}
                    }''')],
   demo=("kit", ("openid", [{"op": "claims", "config": {"format": "vc+sd-jwt", "vct": "A", "claims": {"address": {"street": {"mandatory": True}}, "name": {"mandatory": False}}}, "asked": {"name": {}}},
        {"op": "claims", "config": {"format": "vc+sd-jwt", "vct": "A", "claims": {"address": {"street": {"mandatory": True}}, "name": {"mandatory": False}}}, "asked": {"name": {}, "address": {"street": {}}}}],
        "print(ans)\nassert ans[0]['ok'] is False and ans[1]['ok'] is True"))),
 "status-never-cleared": dict(property="C31", needs="a credential suspended and later reinstated, both in the log",
   breaks="an entry that was set is never cleared, so a reinstated credential stays suspended",
   edits=[(BIT, "                    bits.set(position, status.value != 0);", "                    if status.value != 0 {\n                        bits.set(position, true);\n                    }")],
   demo=("kit", ("docs", [{"op": "list", "config": {"purpose": "suspension", "list": 0, "size": 1}, "log": [{"credential_id": "c0", "subject_id": "s", "status": [{"purpose": "suspension", "list_index": 7, "value": 1},
        {"purpose": "suspension", "list_index": 7, "value": 0}]}], "credential": {"issuer": "https://i1.example", "base": "https://s.example", "ttl": None}}],
        "import base64, gzip\nl = ans[0]['published']['list']\nassert b'1' not in gzip.decompress(base64.urlsafe_b64decode(l + '=' * (-len(l) % 4)))"))),
 "mdoc-id-redrawn-once": dict(property="C32", needs="the same digest id drawn three times in a row",
   breaks="a digest id that was drawn already is drawn again only once, so items can share an id and lose their digest",
   edits=[(MSO, '''            if self.used.insert(digest_id) {
                return digest_id;
            }''', '''            if self.used.insert(digest_id) {
                return digest_id;
            }
            digest_id = rand::thread_rng().gen::<i32>() & i32::MAX;
            self.used.insert(digest_id);
            return digest_id;''')],
   demo=("kit", ("docs", [{"op": "mdoc", "dataset": {"org.example.0": {"a": "x", "b": "y", "c": "z"}}, "script": [5, 5, 5, 5, 6, 7]}], "i = ans[0]['mdoc']['items']['org.example.0']\nassert len({x['id'] for x in i}) == 3, i"))),
}
