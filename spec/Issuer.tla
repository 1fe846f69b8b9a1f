------------------------------- MODULE Issuer -------------------------------
(***************************************************************************)
(* The issuer's endpoints (vercre-issuer): offers, pushed and direct        *)
(* authorization, tokens, credentials, deferred credentials, notifications. *)
(*                                                                          *)
(* A call is a record [op, ..arguments..].  Outcome(call) says              *)
(*   fails  the properties that require the call to be refused ({}: none),  *)
(*   open   TRUE if nothing is promised about whether it succeeds,          *)
(*   hon    the properties broken if it is refused although fails = {},     *)
(*   res    what a successful answer must contain,                          *)
(*   store  what the issuer holds afterwards, pend likewise.                *)
(* Everything the issuer hands out is named <<kind, n>>, n being the value  *)
(* of the counter `n' when it was made.  Time is in seconds.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES cfg,    \* the authorization server's configuration
          now, n, store, pend, hist
vars == <<cfg, now, n, store, pend, hist>>

None == "none"
(************************* the world ***************************************)
Issuers == {"i1", "i2"}
ConfigsOf(i) == CASE i = "i1" -> {"A", "B", "C", "M"} [] i = "i2" -> {"Z"} [] OTHER -> {}
NeedsProof == {"A", "C", "M", "Z"}
ScopeOf == [c \in {"A", "B", "C", "M", "Z"} |-> CASE c = "A" -> "sA" [] c \in {"B", "C"} -> "sB" [] OTHER -> None]
\* formats name a type: those of configurations, and "T" which none has
FormatOf(i, f) == {c \in ConfigsOf(i) : c = f}
Ids(s, c) == CASE s = "alice" -> (CASE c = "A" -> {"a1", "a2"} [] c = "B" -> {"b1"} [] c = "C" -> {"c1"} [] c = "M" -> {"m1"} [] OTHER -> {})
               [] s = "bob" -> (CASE c = "A" -> {"a1"} [] c = "B" -> {"b2"} [] OTHER -> {})
               [] OTHER -> {}
Entitled(s, c) == Ids(s, c) # {}
Clients == {"c1", "c2", "cg", "cr", "cs", "cn", "cu"}
RedirectsOf(c) == CASE c = "c1" -> {"r1", "r1b"} [] c = "cu" -> {} [] OTHER -> {"r2"}
HasCodeGrant(c) == c # "cg"
HasResponseType(c) == c # "cr"
ScopesFit(c) == c \notin {"cs", "cn"} /\ cfg.scopes

AuthLife == 300
ParLife == 600
TokenLife == 900
NonceLife == 600

(************************* what the issuer holds ***************************)
Exists(k) == k \in DOMAIN store
Live(k) == Exists(k) /\ store[k].st = "live"
Used(k) == Exists(k) /\ store[k].st = "used"
Maybe(k) == Exists(k) /\ store[k].st = "maybe"
Expired(k) == Exists(k) /\ now > store[k].exp
Aged(k) == Exists(k) /\ now > store[k].born
Put(s, k, v) == (k :> v) @@ s
Mark(s, k, st) == IF k \in DOMAIN s THEN [s EXCEPT ![k].st = st] ELSE s
\* properties broken by honouring a name that was never handed out, has been used up, or has expired
Name(k, unknown) == (IF ~Exists(k) THEN unknown ELSE {}) \cup (IF Used(k) THEN {"C11"} ELSE {}) \cup (IF Expired(k) THEN {"C13"} ELSE {})
If(b, p) == IF b THEN p ELSE {}
Time(k) == If(Aged(k), {"C13"})

Refuse(own) == [fails |-> own, open |-> FALSE, hon |-> {}, res |-> None, store |-> store, pend |-> pend, code |-> None, made |-> FALSE]

(************************* offers ******************************************)
Set(s) == {s[i] : i \in 1..Len(s)}
CreateOffer(a) ==
  LET pre == "pre" \in Set(a.grants)
      code == "code" \in Set(a.grants)
      bad == \/ a.issuer \notin Issuers \/ a.ids = <<>> \/ \E c \in Set(a.ids) : c \notin ConfigsOf(a.issuer)
             \/ (pre /\ ~cfg.pre) \/ (code /\ ~cfg.code)
             \/ pre /\ (a.subject = None \/ \E c \in Set(a.ids) : ~Entitled(a.subject, c))
      pin == a.tx /\ pre
      offer == [issuer |-> a.issuer, ids |-> a.ids, pre |-> pre, code |-> code, pin |-> pin, n |-> n]
      offered == [kind |-> "code", subject |-> a.subject, items |-> IF pre THEN [i \in 1..Len(a.ids) |-> [cfg |-> a.ids[i], by |-> "detail"]] ELSE <<>>,
                  pre |-> pre, forcode |-> code, pin |-> pin, exp |-> now + AuthLife, born |-> now, st |-> "live"]
      s1 == IF pre \/ code THEN Put(store, <<"code", n>>, offered) ELSE store
      s2 == IF a.send = "ref" THEN Put(s1, <<"ref", n>>, [kind |-> "ref", offer |-> offer, exp |-> now + AuthLife, born |-> now, st |-> "live"]) ELSE s1
  IN IF bad THEN Refuse({"C17"})
     ELSE [fails |-> {}, open |-> FALSE, hon |-> {"C17"}, res |-> [offer |-> offer, pin |-> pin, send |-> a.send], store |-> s2, pend |-> pend, code |-> None, made |-> TRUE]

GetOffer(a) ==
  LET k == <<"ref", a.ref>>
      f == Name(k, {"C17"}) \cup If(Exists(k) /\ a.issuer # store[k].offer.issuer, {"C17"})
  IN IF f # {} THEN [Refuse(f) EXCEPT !.store = Mark(store, k, "used")]
     ELSE [fails |-> {}, open |-> Maybe(k), hon |-> {"C17"} \cup Time(k), res |-> [offer |-> store[k].offer], store |-> Mark(store, k, "used"), pend |-> pend, code |-> None, made |-> FALSE]

(************************* authorization ***********************************)
\* details: <<[by, cfg, claims]>>; by: "id" | "format"; claims: "none" | "ok" | "bad" (unsupported) | "deep" (one inside another) | "short" (a mandatory one left out)
Wanted(r) == {r.details[i].cfg : i \in 1..Len(r.details)} \cup (IF r.scope = None THEN {} ELSE {c \in ConfigsOf(r.issuer) : ScopeOf[c] = r.scope})
ByDetail(r) == {r.details[i].cfg : i \in 1..Len(r.details)}
DetailBad(r) == \E i \in 1..Len(r.details) :
  LET d == r.details[i] IN \/ d.cfg \notin ConfigsOf(r.issuer) \/ d.claims \in {"bad", "short", "deep"}
ScopeBad(r) == r.scope # None /\ ~\E c \in ConfigsOf(r.issuer) \ ByDetail(r) : ScopeOf[c] = r.scope
RequestFails(r, pushed) ==
  If(\/ r.issuer \notin Issuers \/ r.client \notin Clients
     \/ (cfg.par /\ ~pushed)
     \/ ~cfg.resp \/ (r.client \in Clients /\ ~HasResponseType(r.client))
     \/ (r.client \in Clients /\ ~ScopesFit(r.client))
     \/ (r.client \in Clients /\ ~HasCodeGrant(r.client)) \/ ~cfg.code
     \/ r.subject = None
     \/ r.redirect = None \/ (r.client \in Clients /\ r.redirect \notin RedirectsOf(r.client))
     \/ ~cfg.methods \/ r.ch \in {"short", "long"}
     \/ r.details = <<>> /\ r.scope = None
     \/ DetailBad(r) \/ ScopeBad(r), {"C16"})
  \cup (IF r.istate = <<>> THEN {}
        ELSE LET k == r.istate IN Name(k, {"C16"}) \cup If(Exists(k) /\ store[k].kind # "code", {"C16"})
                                  \cup If(Exists(k) /\ store[k].kind = "code" /\ store[k].subject # r.subject, {"C16"}))
NotEntitled(r) == \E c \in Wanted(r) : ~Entitled(r.subject, c)
\* whether the code of an offer without the authorization code grant will do as an issuer state is left open
IStateMaybe(r) == r.istate # <<>> /\ (Maybe(r.istate) \/ ~store[r.istate].forcode)
IStateTime(r) == IF r.istate = <<>> THEN {} ELSE Time(r.istate)

Granted(r) == SetToSeq({[cfg |-> c, by |-> IF c \in ByDetail(r) THEN "detail" ELSE "scope"] : c \in Wanted(r)})
Authorize(a) ==
  LET k == <<"par", a.par>>
      pushed == a.via = "par"
      r == IF pushed THEN (IF Exists(k) THEN store[k].req ELSE None) ELSE a.req
      f == IF pushed /\ ~Exists(k) THEN {"C16"}
           ELSE If(pushed /\ Expired(k), {"C13"}) \cup RequestFails(r, pushed) \cup If(NotEntitled(r), {"C16", "C14"})
      acode == [kind |-> "acode", subject |-> r.subject, client |-> r.client, redirect |-> r.redirect, ch |-> r.ch, items |-> Granted(r),
                exp |-> now + AuthLife, born |-> now, st |-> "live"]
      s1 == Put(store, <<"acode", n>>, acode)
      s2 == IF r.istate # <<>> THEN Mark(s1, r.istate, "used") ELSE s1
      s3 == IF pushed THEN Mark(s2, k, "maybe") ELSE s2
  IN IF f # {} THEN [Refuse(f) EXCEPT !.store = IF pushed THEN Mark(store, k, "maybe") ELSE store]
     ELSE [fails |-> {}, open |-> IStateMaybe(r) \/ (pushed /\ Maybe(k)), hon |-> {"C16"} \cup IStateTime(r) \cup If(pushed, Time(k)),
           res |-> [state |-> r.state, redirect |-> r.redirect], store |-> s3, pend |-> pend, code |-> None, made |-> TRUE]

Push(a) ==
  LET r == a.req
      f == RequestFails(r, TRUE)
  IN IF f # {} THEN Refuse(f)
     ELSE [fails |-> {}, open |-> IStateMaybe(r) \/ NotEntitled(r), hon |-> {"C16"} \cup IStateTime(r), res |-> [life |-> ParLife],
           store |-> Put(store, <<"par", n>>, [kind |-> "par", req |-> r, exp |-> now + ParLife, born |-> now, st |-> "live"]), pend |-> pend, code |-> None, made |-> TRUE]

(************************* tokens ******************************************)
\* narrow: <<>> or [by, cfg, claims] as in authorization requests
Token(a) ==
  LET k == a.key
      e == store[k]
      pre == a.grant = "pre"
      fits == IF pre THEN e.kind = "code" /\ e.pre ELSE e.kind = "acode"
      f == Name(k, {"C12"})
           \cup If(a.issuer \notin Issuers, {"C12"})
           \cup If(Exists(k) /\ ~fits, {"C12"})
           \cup If((pre /\ ~cfg.pre) \/ (~pre /\ ~cfg.code), {"C12"})
           \cup If(a.client \notin Clients \cup {None}, {"C12"})
           \cup (IF ~(Exists(k) /\ fits) THEN {}
                 ELSE IF pre THEN If(a.client = None /\ ~cfg.anon, {"C12"}) \cup If(e.pin /\ a.pin # "right", {"C12"})
                      \cup If(\E i \in 1..Len(a.narrow) : a.narrow[i].cfg \notin {e.items[j].cfg : j \in 1..Len(e.items)} \/ a.narrow[i].claims \in {"bad", "short", "deep"}, {"C14"})
                 ELSE If(a.client # e.client \/ a.redirect # e.redirect \/ a.ver # e.ch, {"C12"}))
      open == \/ (pre /\ ~e.pin /\ a.pin # None)            \* a PIN nobody asked for
              \/ (~pre /\ a.narrow # <<>>)
              \/ (a.client \in Clients /\ ~ScopesFit(a.client))
      items == IF pre /\ a.narrow # <<>> THEN SelectSeq(e.items, LAMBDA x : \E i \in 1..Len(a.narrow) : a.narrow[i].cfg = x.cfg) ELSE e.items
      creds == UNION {{<<i, items[j].cfg>> : i \in Ids(e.subject, items[j].cfg)} : j \in 1..Len(items)}
      tok == [kind |-> "tok", subject |-> e.subject, creds |-> creds, nonce |-> n, nexp |-> now + NonceLife, exp |-> now + TokenLife, sure |-> now + TokenLife,
              born |-> now, st |-> "live"]
      \* a name of some other kind may or may not survive being taken for a code
      after == IF Exists(k) /\ e.kind \notin {"code", "acode"} THEN Mark(store, k, "maybe") ELSE Mark(store, k, "used")
  IN IF f # {} THEN [Refuse(f) EXCEPT !.store = after]
     ELSE [fails |-> {}, open |-> open \/ Maybe(k), hon |-> {"C12"} \cup Time(k) \cup If(pre /\ a.narrow # <<>>, {"C14"}),
           res |-> [details |-> {[cfg |-> items[j].cfg, ids |-> Ids(e.subject, items[j].cfg)] : j \in {j \in 1..Len(items) : items[j].by = "detail"}},
                    life |-> TokenLife, nlife |-> NonceLife],
           store |-> Put(after, <<"tok", n>>, tok), pend |-> pend, code |-> None, made |-> TRUE]

(************************* credentials *************************************)
\* proofs: sequence of [by, nonce, flaw]; form: "none" | "one" | "many"
ProofGood(p, nonce) == p.flaw = "none" /\ p.nonce = nonce
ProofOk(a, nonce) == a.form # "none" /\ Len(a.proofs) > 0 /\ \A i \in 1..Len(a.proofs) : ProofGood(a.proofs[i], nonce)
Provers(a) == {a.proofs[i].by : i \in 1..Len(a.proofs)}
\* the authorized <<identifier, configuration>> pairs the request may be about
Picked(a, tok) == {c \in tok.creds : IF a.by = "id" THEN c[1] = a.what ELSE a.issuer \in Issuers /\ c[2] \in FormatOf(a.issuer, a.what)}
Issue(a, tok, some) ==
  [kind |-> "vc", subject |-> tok.subject, picked |-> some, claims |-> a.claims, by |-> a.by, provers |-> IF \E c \in some : c[2] \in NeedsProof THEN Provers(a) ELSE {}]
Credential(a) ==
  LET k == a.tok
      tok == store[k]
      known == Exists(k) /\ tok.kind = "tok"
      picked == Picked(a, tok)
      needs == \E c \in picked : c[2] \in NeedsProof
      f0 == If(~known, {"C14"})
            \cup If(known /\ now > tok.exp, {"C13"})
            \cup If(a.issuer \notin Issuers, {"C14"})
            \cup If(known /\ (picked = {} \/ \E c \in picked : c[2] \notin ConfigsOf(a.issuer)), {"C14"})
            \cup If(known /\ picked # {} /\ needs /\ now > tok.nexp, {"C13"})
      proof == known /\ picked # {} /\ needs /\ ~ProofOk(a, tok.nonce)
      rotated == [tok EXCEPT !.nonce = n, !.nexp = now + NonceLife, !.exp = now + TokenLife]
      waiting == {c \in picked : <<tok.subject, c[1]>> \in pend}
      \* a format may be met by several identifiers: only then is it left open which one
      mixed == Cardinality(picked) > 1
  IN IF f0 # {} \/ (proof /\ f0 # {}) THEN Refuse(f0 \cup If(proof, {"C15"}))
     ELSE IF proof THEN [Refuse({"C15"}) EXCEPT !.store = Put(store, k, rotated), !.code = "invalid_proof", !.made = TRUE, !.open = Maybe(k)]
     ELSE
       LET late == now > tok.sure \/ (~needs /\ now > tok.nexp) IN
       IF waiting # {} /\ waiting = picked
       THEN [fails |-> {}, open |-> late \/ Maybe(k) \/ mixed, hon |-> {"C14", "C18"} \cup If(needs, {"C15"}) \cup Time(k), res |-> [kind |-> "txn"],
             store |-> Put(store, <<"txn", n>>, [kind |-> "txn", tok |-> k, req |-> a, exp |-> now + TokenLife, born |-> now, st |-> "live"]), pend |-> pend, code |-> None, made |-> TRUE]
       ELSE [fails |-> {}, open |-> late \/ Maybe(k) \/ waiting # {}, hon |-> {"C14"} \cup If(needs, {"C15"}) \cup Time(k), res |-> Issue(a, tok, picked),
             store |-> Put(Put(store, k, rotated), <<"note", n>>, [kind |-> "note", exp |-> now + TokenLife, born |-> now, st |-> "live"]), pend |-> pend, code |-> None, made |-> TRUE]

Deferred(a) ==
  LET k == <<"txn", a.txn>>
      d == store[k]
      t == store[a.tok]
      have == Exists(a.tok) /\ t.kind = "tok"
      req == d.req
      same == Exists(k) /\ d.tok = a.tok
      picked == IF Exists(k) /\ have THEN Picked(req, t) ELSE {}
      needs == \E c \in picked : c[2] \in NeedsProof
      f == Name(k, {"C18"}) \cup If(~have, {"C18", "C14"}) \cup If(have /\ now > t.exp, {"C13"})
           \cup If(a.issuer \notin Issuers, {"C18"})
           \cup If(Exists(k) /\ have /\ (picked = {} \/ \E c \in picked : c[2] \notin ConfigsOf(a.issuer)), {"C14"})
           \cup If(Exists(k) /\ have /\ needs /\ ~same /\ ~ProofOk(req, t.nonce), {"C15"})
      waiting == {c \in picked : <<t.subject, c[1]>> \in pend}
      rotated == [t EXCEPT !.nonce = n, !.nexp = now + NonceLife, !.exp = now + TokenLife]
  IN IF f # {} THEN Refuse(f)
     ELSE IF waiting = picked
     THEN [Refuse({"C18"}) EXCEPT !.code = "issuance_pending", !.open = ~same \/ now > t.sure \/ Maybe(a.tok) \/ Maybe(k), !.hon = {"C18"} \cup Time(k)]
     ELSE [fails |-> {}, open |-> ~same \/ now > t.sure \/ Maybe(a.tok) \/ Maybe(k) \/ waiting # {}, hon |-> {"C18"} \cup Time(k), res |-> Issue(req, t, picked),
           store |-> Mark(Put(Put(store, a.tok, rotated), <<"note", n>>, [kind |-> "note", exp |-> now + TokenLife, born |-> now, st |-> "live"]), k, "used"),
           pend |-> pend, code |-> None, made |-> TRUE]

(************************* the rest ****************************************)
Notify(a) ==
  LET k == a.key
      f == If(~Exists(k), {"C20"}) \cup If(Used(k), {"C11"}) \cup If(Exists(k) /\ store[k].kind # "note", {"C20"})
  IN IF f # {} THEN Refuse(f)
     ELSE [fails |-> {}, open |-> Expired(k) \/ Maybe(k), hon |-> {"C20"}, res |-> None, store |-> Mark(store, k, "used"), pend |-> pend, code |-> None, made |-> FALSE]

\* metadata is told apart by issuer, and by authorization server where one is named
Metadata(a) ==
  IF a.issuer \notin Issuers \/ (a.op = "oauth_server" /\ a.server \notin {None, "as1"}) THEN Refuse({"C20"})
  ELSE [fails |-> {}, open |-> FALSE, hon |-> {"C20"}, res |-> [issuer |-> a.issuer, server |-> IF a.op = "oauth_server" THEN a.server ELSE None], store |-> store, pend |-> pend, code |-> None, made |-> FALSE]
\* a client may be registered with an access token; whether other or expired names will do is left open
Register(a) ==
  IF ~Exists(a.key) THEN Refuse({"C20"})
  ELSE [fails |-> {}, open |-> store[a.key].kind # "tok" \/ ~Live(a.key) \/ Expired(a.key), hon |-> {"C20"}, res |-> [client |-> a.client], store |-> store, pend |-> pend, code |-> None, made |-> FALSE]

Ready(a) == [fails |-> {}, open |-> FALSE, hon |-> {}, res |-> None, store |-> store, pend |-> pend \ {<<a.subject, a.id>>}, code |-> None, made |-> FALSE]

Outcome(a) ==
  CASE a.op = "create_offer" -> CreateOffer(a) [] a.op = "credential_offer" -> GetOffer(a) [] a.op = "authorize" -> Authorize(a) [] a.op = "par" -> Push(a)
    [] a.op = "token" -> Token(a) [] a.op = "credential" -> Credential(a) [] a.op = "deferred" -> Deferred(a) [] a.op = "notification" -> Notify(a)
    [] a.op = "ready" -> Ready(a) [] a.op \in {"metadata", "oauth_server"} -> Metadata(a) [] a.op = "register" -> Register(a)
Expect(o) == [fails |-> o.fails, open |-> o.open, hon |-> o.hon, res |-> o.res, code |-> o.code]

Call(a) ==
  LET o == Outcome(a) IN
  /\ ~o.open
  /\ store' = o.store /\ pend' = o.pend
  /\ n' = IF o.made THEN n + 1 ELSE n
  /\ hist' = Append(hist, [a |-> a, n |-> n, at |-> now, exp |-> Expect(o)])
  /\ UNCHANGED <<cfg, now>>
Tick(d) == /\ now' = now + d
           /\ hist' = Append(hist, [a |-> [op |-> "tick", d |-> d], n |-> n, at |-> now, exp |-> [fails |-> {}, open |-> FALSE, hon |-> {}, res |-> None, code |-> None]])
           /\ UNCHANGED <<cfg, n, store, pend>>

Reconfigure(c) == /\ cfg' = c
                  /\ hist' = Append(hist, [a |-> [op |-> "server", cfg |-> c, was |-> cfg], n |-> n, at |-> now, exp |-> [fails |-> {}, open |-> FALSE, hon |-> {}, res |-> None, code |-> None]])
                  /\ UNCHANGED <<now, n, store, pend>>

(************************* properties of the model *************************)
\* Succeeded calls, as indexes into the history
Ok(op) == {i \in 1..Len(hist) : hist[i].a.op = op /\ hist[i].exp.fails = {}}
Made(i) == hist[i].n
\* C11: one success per name
Once ==
  /\ \A i, j \in Ok("token") : hist[i].a.key = hist[j].a.key => i = j
  /\ \A i, j \in Ok("credential_offer") : hist[i].a.ref = hist[j].a.ref => i = j
  /\ \A i, j \in Ok("deferred") : hist[i].a.txn = hist[j].a.txn => i = j
  /\ \A i, j \in Ok("notification") : hist[i].a.key = hist[j].a.key => i = j
  /\ \A i, j \in Ok("authorize") : hist[i].a.via = "object" /\ hist[j].a.via = "object" /\ hist[i].a.req.istate # <<>> /\ hist[i].a.req.istate = hist[j].a.req.istate => i = j
  /\ \A i \in Ok("authorize"), j \in Ok("token") : hist[i].a.via = "object" /\ hist[i].a.req.istate # <<>> => hist[i].a.req.istate # hist[j].a.key
\* C12, C13: every token goes back to a grant it fits, made not too long ago
Origin(i) == IF hist[i].a.key[1] = "code" THEN {j \in Ok("create_offer") : j < i /\ Made(j) = hist[i].a.key[2]}
             ELSE {j \in Ok("authorize") : j < i /\ Made(j) = hist[i].a.key[2]}
TokensGranted ==
  \A i \in Ok("token") : \E j \in Origin(i) :
     /\ hist[i].at <= hist[j].at + AuthLife
     /\ hist[i].a.grant = "pre" => hist[j].a.op = "create_offer" /\ "pre" \in Set(hist[j].a.grants) /\ (hist[j].a.tx => hist[i].a.pin = "right")
     /\ hist[i].a.grant = "code" => hist[j].a.op = "authorize"
     /\ (hist[i].a.grant = "code" /\ hist[j].a.via = "object") =>
           hist[i].a.client = hist[j].a.req.client /\ hist[i].a.redirect = hist[j].a.req.redirect /\ hist[i].a.ver = hist[j].a.req.ch
\* C14: nothing is issued that the grant behind the token does not cover
Issued == {i \in Ok("credential") \cup Ok("deferred") : hist[i].exp.res.kind = "vc"}
TokenOf(i) == {j \in Ok("token") : Made(j) = hist[i].a.tok[2]}
CfgsOf(j) == IF hist[j].a.op = "create_offer" THEN Set(hist[j].a.ids) ELSE IF hist[j].a.via = "object" THEN Wanted(hist[j].a.req) ELSE {"A", "B", "C", "M"}
IssuedAuthorized ==
  \A i \in Issued : \E j \in TokenOf(i) : \E g \in Origin(j) :
     /\ \A c \in hist[i].exp.res.picked : c[2] \in CfgsOf(g)
     /\ \A c \in hist[i].exp.res.picked : hist[j].a.narrow # <<>> => \E x \in 1..Len(hist[j].a.narrow) : hist[j].a.narrow[x].cfg = c[2]
\* C15: no proof is accepted for two credentials, deferred ones apart
ProofsFresh ==
  \A i, j \in {i \in Issued : hist[i].a.op = "credential" /\ hist[i].exp.res.provers # {}} :
     hist[i].a.proofs[1].nonce = hist[j].a.proofs[1].nonce => i = j
\* C18: what is collected was asked for, and what is pending stays collectable
CollectedAsked == \A i \in Ok("deferred") : \E j \in Ok("credential") : j < i /\ Made(j) = hist[i].a.txn /\ hist[j].exp.res.kind = "txn"
\* unless it was taken for an authorization code
PendingKept == \A i \in Ok("credential") :
  (hist[i].exp.res.kind = "txn" /\ (\A j \in Ok("deferred") : hist[j].a.txn # Made(i)) /\ \A j \in 1..Len(hist) : hist[j].a.op = "token" => hist[j].a.key # <<"txn", Made(i)>>)
     => Live(<<"txn", Made(i)>>)
=============================================================================
