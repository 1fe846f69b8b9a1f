------------------------------ MODULE EndToEnd ------------------------------
(***************************************************************************)
(* The three parties together: an issuer (vercre-issuer), two wallets       *)
(* (vercre-holder) with their users, and a verifier (vercre-verifier), all  *)
(* real; what passes between them passes as it would over the wire.         *)
(*                                                                          *)
(* Outcome(call): the properties that require the call to be refused        *)
(* (fails), those broken by refusing it (hon), whether nothing is promised  *)
(* (open), what must be answered (res), and the state afterwards.  Offers,  *)
(* flows, requests, presentations and credentials are named by the counter  *)
(* `n' when they began.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Focus, Depth

VARIABLES now, n, offers, flows, pend, held, asks, pres, hist
vars == <<now, n, offers, flows, pend, held, asks, pres, hist>>
None == "none"
Unknown == 99
Members(s) == {s[i] : i \in DOMAIN s}
Nothing == [no |-> TRUE]

(************************* the world ***************************************)
Wallets == {"w1", "w2"}
UserOf(w) == IF w = "w1" THEN "alice" ELSE "bob"
Configs == {"A", "B"}
ScopeOf == [A |-> "sA", B |-> "sB"]
Ids(s, c) == CASE s = "alice" -> (IF c = "A" THEN {"a1", "a2"} ELSE {"b1"}) [] s = "bob" -> (IF c = "A" THEN {"a3"} ELSE {}) [] OTHER -> {}
Entitled(s, c) == Ids(s, c) # {}
NeedsProof(c) == c = "A"
Claims == {"given", "family", "email"}
Mandatory(c) == IF c = "A" THEN {"given"} ELSE {}
AuthLife == 300
TokenLife == 900
NonceLife == 600
AskLife == 300

\* a choice: everything, or a list of [cfg, claims]; claims {}: all of them
Whole == [any |-> TRUE, list |-> <<>>]
L(s) == [any |-> FALSE, list |-> s]
Short(acc) == \E i \in 1..Len(acc.list) : acc.list[i].claims # {} /\ ~(Mandatory(acc.list[i].cfg) \subseteq acc.list[i].claims)
ClaimsOf(acc, c) == IF acc.any THEN Claims ELSE LET s == {acc.list[i].claims : i \in {j \in 1..Len(acc.list) : acc.list[j].cfg = c}} IN IF s = {} \/ {} \in s THEN Claims ELSE UNION s
Wanted(f) == IF f.acc.any THEN Members(f.cfgs) ELSE {f.acc.list[i].cfg : i \in 1..Len(f.acc.list)}

(************************* outcomes ****************************************)
St == [offers |-> offers, flows |-> flows, pend |-> pend, held |-> held, asks |-> asks, pres |-> pres]
Refuse(own) == [fails |-> own, hon |-> {}, open |-> FALSE, res |-> Nothing, st |-> St]
Done(own, res, st) == [fails |-> {}, hon |-> own, open |-> FALSE, res |-> res, st |-> st]
Open == [Refuse({}) EXCEPT !.open = TRUE]
IfOpen(b, o) == IF b THEN [o EXCEPT !.open = TRUE] ELSE o
With(f, k, v) == (k :> v) @@ f
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
At(k, s) == k \in DOMAIN flows /\ flows[k].st = s

\* the issuer makes an offer
HasPre(g) == g \in {"pre", "tx", "pre+code"}
HasCode(g) == g \in {"code", "pre+code"}
Make(a) ==
  IF \E c \in Members(a.cfgs) : HasPre(a.grants) /\ ~Entitled(a.subject, c) THEN Refuse({"C33"})
  ELSE Done({"C33"}, [grants |-> a.grants, cfgs |-> a.cfgs],
            [St EXCEPT !.offers = With(offers, n, [subject |-> a.subject, cfgs |-> a.cfgs, grants |-> a.grants, send |-> a.send, born |-> now, used |-> FALSE, got |-> FALSE])])
\* a wallet takes it: scanned, or fetched from where it lies, which can be done once
Take(a) ==
  LET o == offers[a.offer]
      gone == o.send = "ref" /\ (o.got \/ now > o.born + AuthLife)
      s == [St EXCEPT !.offers = IF o.send = "ref" THEN [offers EXCEPT ![a.offer].got = TRUE] ELSE offers]
  IN IF a.offer \notin DOMAIN offers THEN Refuse({"C33"})
     ELSE IF gone THEN [Refuse({"C33"}) EXCEPT !.st = s]
     ELSE Done({"C33"}, [cfgs |-> o.cfgs, flow |-> n],
               [s EXCEPT !.flows = With(flows, n, [w |-> a.w, offer |-> a.offer, subj |-> UserOf(a.w), cfgs |-> o.cfgs, grants |-> o.grants, st |-> "ready", acc |-> Whole, scope |-> None, pin |-> None,
                                                   auth |-> {}, exp |-> 0, nexp |-> 0, sure |-> 0, later |-> {}, creds |-> {}])])
Accept(a) ==
  LET f == flows[a.flow] IN
  IF ~At(a.flow, "ready") \/ (~a.acc.any /\ \E i \in 1..Len(a.acc.list) : a.acc.list[i].cfg \notin Members(f.cfgs)) THEN Refuse({"C33"})
  ELSE Done({"C33"}, Nothing, [St EXCEPT !.flows[a.flow].acc = a.acc, !.flows[a.flow].st = IF f.grants = "tx" THEN "pin" ELSE "accepted"])
Pin(a) == IF ~At(a.flow, "pin") THEN Refuse({"C33"}) ELSE Done({"C33"}, Nothing, [St EXCEPT !.flows[a.flow].pin = a.pin, !.flows[a.flow].st = "accepted"])

\* what a grant gives: <<identifier, configuration, claims>>
Grant(subj, cfgs, acc) == UNION {{[id |-> i, cfg |-> c, claims |-> ClaimsOf(acc, c)] : i \in Ids(subj, c)} : c \in cfgs}
Authed(s, k, subj, cfgs, acc) == [s EXCEPT !.flows[k] = [@ EXCEPT !.st = "token", !.subj = subj, !.auth = Grant(subj, cfgs, acc), !.exp = now + TokenLife, !.nexp = now + NonceLife, !.sure = now + TokenLife]]
Shown(subj, cfgs) == {[cfg |-> c, ids |-> Ids(subj, c)] : c \in cfgs}
Token(a) ==
  LET f == flows[a.flow]
      o == offers[f.offer]
      used == [St EXCEPT !.offers[f.offer].used = TRUE]
  IN IF ~(At(a.flow, "accepted") /\ HasPre(f.grants)) THEN Refuse({"C33"})
     ELSE IF o.used \/ now > o.born + AuthLife \/ (f.grants = "tx" /\ f.pin # "right") \/ Short(f.acc) THEN [Refuse({"C33"}) EXCEPT !.st = used]
     ELSE Done({"C33"}, [auth |-> Shown(o.subject, Wanted(f))], Authed(used, a.flow, o.subject, Wanted(f), f.acc))
\* an authorization and the token that follows; the offer, if it has this grant, stands behind it
Authorize(a) ==
  LET f == flows[a.flow]
      o == offers[f.offer]
      user == UserOf(f.w)
      behind == HasCode(f.grants)
      bad == \/ a.redirect # "own"
             \/ Short(f.acc) \/ \E c \in Wanted(f) : ~Entitled(user, c)
             \/ (behind /\ (o.used \/ now > o.born + AuthLife \/ o.subject # user))
  IN IF ~(At(a.flow, "accepted") /\ (behind \/ f.grants = None)) THEN Refuse({"C33"})
     ELSE IF bad THEN Refuse({"C33"})
     ELSE Done({"C33"}, [auth |-> Shown(user, Wanted(f))], Authed(IF behind THEN [St EXCEPT !.offers[f.offer].used = TRUE] ELSE St, a.flow, user, Wanted(f), f.acc))
\* a wallet starts on its own, by details or by scope
Start(a) ==
  LET user == UserOf(a.w)
      cfgs == IF a.scope = None THEN {a.acc.list[i].cfg : i \in 1..Len(a.acc.list)} ELSE {c \in Configs : ScopeOf[c] = a.scope}
      f == [w |-> a.w, offer |-> 0, subj |-> user, cfgs |-> <<>>, grants |-> None, st |-> "token", acc |-> a.acc, scope |-> a.scope, pin |-> None, auth |-> {}, exp |-> 0, nexp |-> 0, sure |-> 0, later |-> {}, creds |-> {}]
      s == [St EXCEPT !.flows = With(flows, n, f)]
  IN IF cfgs = {} \/ (\E c \in cfgs : c \notin Configs \/ ~Entitled(user, c)) \/ Short(a.acc) \/ a.redirect # "own" THEN Refuse({"C33"})
     ELSE Done({"C33"}, [auth |-> IF a.scope = None THEN Shown(user, cfgs) ELSE {}], Authed(s, n, user, cfgs, IF a.scope = None THEN a.acc ELSE Whole))

\* credentials
Made(f, x, k) == [id |-> x.id, cfg |-> x.cfg, subj |-> f.subj, to |-> IF NeedsProof(x.cfg) THEN f.w ELSE "any", claims |-> x.claims, k |-> k]
Got(s, k, new, later) ==
  IF new = {} THEN [s EXCEPT !.flows[k].later = @ \cup later]
  ELSE [s EXCEPT !.flows[k] = [@ EXCEPT !.creds = @ \cup new, !.later = @ \cup later, !.exp = now + TokenLife, !.nexp = now + NonceLife]]
Collect(a) ==
  LET f == flows[a.flow]
      pick == IF f.scope # None THEN {x \in f.auth : x.cfg = a.fmt}
              ELSE IF a.ids.any THEN f.auth ELSE {x \in f.auth : x.id \in Members(a.ids.list)}
      \* a format is met by any one identifier of its configuration
      vague == f.scope # None /\ Cardinality(pick) > 1
      late == {x \in pick : <<f.subj, x.id>> \in pend}
      later == {[id |-> x.id, cfg |-> x.cfg, claims |-> x.claims, k |-> n] : x \in late}
      needs == {x \in pick : NeedsProof(x.cfg)}
  IN IF ~At(a.flow, "token") THEN Refuse({"C33"})
     ELSE IF f.scope # None /\ (pick = {} \/ ~a.ids.any) THEN Refuse({"C33"})
     ELSE IF pick # {} /\ (now > f.exp \/ (now > f.nexp /\ needs = pick)) THEN Refuse({"C33"})
     ELSE IfOpen(pick # {} /\ (vague \/ now > f.nexp \/ now > f.sure),
                 Done({"C33"}, [later |-> f.later \cup later], Got(St, a.flow, {Made(f, x, n) : x \in pick \ late}, later)))
Defer(a) ==
  LET f == flows[a.flow]
      x == CHOOSE t \in f.later : t.id = a.tx.id /\ t.k = a.tx.k
      waits == <<f.subj, a.tx.id>> \in pend
      s == [St EXCEPT !.flows[a.flow].later = @ \ {x}]
  IN IF ~At(a.flow, "token") THEN Refuse({"C33"})
     ELSE IF ~\E t \in f.later : t.id = a.tx.id /\ t.k = a.tx.k THEN Refuse({"C33"})
     ELSE IF now > f.exp \/ waits THEN Refuse({"C33"})
     ELSE IfOpen(now > f.sure, Done({"C33"}, [later |-> f.later \ {x}], Got(s, a.flow, {Made(f, x, n)}, {})))
Save(a) ==
  LET f == flows[a.flow] IN
  IF a.flow \notin DOMAIN flows THEN Refuse({"C33"})
  ELSE Done({"C33"}, Nothing, [St EXCEPT !.held[f.w] = @ \cup f.creds, !.flows = IF f.later = {} THEN Without(flows, a.flow) ELSE [flows EXCEPT ![a.flow].creds = {}]])
Cancel(a) == IF a.flow \notin DOMAIN flows THEN Refuse({"C33"}) ELSE Done({"C33"}, Nothing, [St EXCEPT !.flows = Without(flows, a.flow)])
Ready(a) == Done({}, Nothing, [St EXCEPT !.pend = pend \ {<<a.subject, a.id>>}])

\* presentations
Fits(c, d) == CASE d = "A" -> c.cfg = "A" [] d = "B" -> c.cfg = "B" [] d = "Ae" -> c.cfg = "A" /\ "email" \in c.claims
                [] d = "Al" -> c.cfg = "A" /\ "given" \in c.claims /\ c.subj = "alice" [] d = "Ao" -> c.cfg = "A" /\ ("given" \in c.claims => c.subj = "alice")
Ask(a) == Done({"C34"}, Nothing, [St EXCEPT !.asks = With(asks, n, [descs |-> a.descs, how |-> a.how, born |-> now, st |-> "open"])])
Gone(k) == asks[k].st = "answered" \/ now > asks[k].born + AskLife
Match(w, descs) == {c \in held[w] : \E d \in Members(descs) : Fits(c, d)}
Request(a) ==
  IF a.ask \notin DOMAIN asks \/ (asks[a.ask].how = "cross" /\ Gone(a.ask)) THEN Refuse({"C34"})
  ELSE LET m == Match(a.w, asks[a.ask].descs) IN
       Done({"C34"}, [creds |-> m], [St EXCEPT !.pres = With(pres, n, [w |-> a.w, ask |-> a.ask, creds |-> m, st |-> "asked"])])
PAt(k, s) == k \in DOMAIN pres /\ pres[k].st \in s
Consent(a) == IF ~PAt(a.pres, {"asked"}) THEN Refuse({"C34"}) ELSE Done({"C34"}, Nothing, [St EXCEPT !.pres[a.pres].st = "agreed"])
Enough(p) == \A d \in Members(asks[p.ask].descs) : \E c \in p.creds : Fits(c, d)
Present(a) ==
  LET p == pres[a.pres] IN
  IF ~PAt(a.pres, {"agreed", "sent"}) \/ Gone(p.ask) \/ ~Enough(p) THEN Refuse({"C34"})
  ELSE Done({"C34"}, Nothing, [St EXCEPT !.pres[a.pres].st = "sent", !.asks[p.ask].st = "answered"])

Outcome(a) == CASE a.op = "make" -> Make(a) [] a.op = "take" -> Take(a) [] a.op = "accept" -> Accept(a) [] a.op = "pin" -> Pin(a) [] a.op = "token" -> Token(a) [] a.op = "authorize" -> Authorize(a)
                [] a.op = "start" -> Start(a) [] a.op = "collect" -> Collect(a) [] a.op = "defer" -> Defer(a) [] a.op = "save" -> Save(a) [] a.op = "cancel" -> Cancel(a) [] a.op = "ready" -> Ready(a)
                [] a.op = "ask" -> Ask(a) [] a.op = "request" -> Request(a) [] a.op = "consent" -> Consent(a) [] a.op = "present" -> Present(a)
Expect(o) == [fails |-> o.fails, hon |-> o.hon, open |-> o.open, res |-> o.res, held |-> o.st.held]
Call(a) == LET o == Outcome(a) IN
           /\ ~o.open
           /\ offers' = o.st.offers /\ flows' = o.st.flows /\ pend' = o.st.pend /\ held' = o.st.held /\ asks' = o.st.asks /\ pres' = o.st.pres
           /\ n' = n + 1 /\ now' = now
           /\ hist' = Append(hist, [a |-> a, n |-> n, at |-> now, exp |-> Expect(o)])
Tick(d) == /\ now' = now + d /\ n' = n + 1 /\ UNCHANGED <<offers, flows, pend, held, asks, pres>>
           /\ hist' = Append(hist, [a |-> [op |-> "tick", d |-> d], n |-> n, at |-> now, exp |-> Expect(Refuse({}))])

(************************* the properties on the model *********************)
Ok(op) == {i \in 1..Len(hist) : hist[i].a.op = op /\ hist[i].exp.fails = {}}
Flow(i) == IF hist[i].a.op \in {"take", "start"} THEN hist[i].n ELSE hist[i].a.flow
\* C33: whatever a wallet holds was granted: by an offer it took and accepted, or because its user asked for it
Rooted == \A w \in Wallets : \A c \in held[w] :
            \E i \in Ok("collect") \cup Ok("defer") : hist[i].n = c.k /\ \E j \in Ok("take") \cup Ok("start") :
               /\ j < i /\ Flow(j) = Flow(i) /\ hist[j].a.w = w
               /\ hist[j].a.op = "start" => c.subj = UserOf(w)
               /\ hist[j].a.op = "take" => \E o \in Ok("make") : hist[o].n = hist[j].a.offer /\ c.cfg \in Members(hist[o].a.cfgs) /\ c.id \in Ids(c.subj, c.cfg)
                                            /\ (hist[o].a.grants # None => c.subj = hist[o].a.subject)
                                            /\ \E x \in Ok("accept") : x < i /\ Flow(x) = Flow(i) /\ (hist[x].a.acc.any \/ \E m \in 1..Len(hist[x].a.acc.list) : hist[x].a.acc.list[m].cfg = c.cfg)
\* an offer is turned into an access token at most once, whichever wallet does it
OnceRedeemed == \A i, j \in Ok("token") \cup {x \in Ok("authorize") : TRUE} : i # j =>
                  \A p \in Ok("take"), q \in Ok("take") : (Flow(p) = Flow(i) /\ Flow(q) = Flow(j) /\ hist[p].a.offer = hist[q].a.offer) =>
                     \E o \in Ok("make") : hist[o].n = hist[p].a.offer /\ hist[o].a.grants = None
\* each holder's credentials are bound to that holder
Bound == \A w \in Wallets : \A c \in held[w] : c.to \in {w, "any"}
\* C34: a request is answered at most once, after consent, by what its wallet held
AnsweredOnce == \A i, j \in Ok("present") : i # j => \A p, q \in Ok("request") : (hist[p].n = hist[i].a.pres /\ hist[q].n = hist[j].a.pres) => hist[p].a.ask # hist[q].a.ask
Consented == \A i \in Ok("present") : \E c \in Ok("consent"), r \in Ok("request") : r < c /\ c < i /\ hist[c].a.pres = hist[i].a.pres /\ hist[r].n = hist[i].a.pres
                /\ \A d \in Members((CHOOSE q \in {hist[x] : x \in Ok("ask")} : q.n = hist[r].a.ask).a.descs) : \E x \in hist[r].exp.res.creds : Fits(x, d)
\* anything deferred and ready can be collected while its token lasts
NothingLost == \A k \in DOMAIN flows : (flows[k].st = "token" /\ now <= flows[k].exp /\ now <= flows[k].sure) =>
                 \A t \in flows[k].later : <<flows[k].subj, t.id>> \in pend \/ Defer([op |-> "defer", flow |-> k, tx |-> t]).fails = {}

(************************* what is looked at *******************************)
MkO(s, c, g, v) == [op |-> "make", subject |-> s, cfgs |-> c, grants |-> g, send |-> v]
Tk(w, o) == [op |-> "take", w |-> w, offer |-> o]
Ac(k, x) == [op |-> "accept", flow |-> k, acc |-> x]
Pn(k, p) == [op |-> "pin", flow |-> k, pin |-> p]
To(k) == [op |-> "token", flow |-> k]
Au(k, r) == [op |-> "authorize", flow |-> k, redirect |-> r]
Sr(w, x, s, r) == [op |-> "start", w |-> w, acc |-> x, scope |-> s, redirect |-> r]
Co(k, i, f) == [op |-> "collect", flow |-> k, ids |-> i, fmt |-> f]
De(k, t) == [op |-> "defer", flow |-> k, tx |-> [id |-> t.id, k |-> t.k]]
Sv(k) == [op |-> "save", flow |-> k]
Ca(k) == [op |-> "cancel", flow |-> k]
Rd(s, i) == [op |-> "ready", subject |-> s, id |-> i]
As(d, h) == [op |-> "ask", descs |-> d, how |-> h]
Rq(w, k) == [op |-> "request", w |-> w, ask |-> k]
Cn(p) == [op |-> "consent", pres |-> p]
Pr(p) == [op |-> "present", pres |-> p]
D(c, x) == [cfg |-> c, claims |-> x]
Ks == DOMAIN flows
Os == DOMAIN offers
Qs == DOMAIN asks
Ps == DOMAIN pres
Steps(k, picks) == {Ac(k, x) : x \in picks} \cup {Pn(k, "right"), To(k), Au(k, "own"), Co(k, Whole, None), Sv(k)} \cup {De(k, t) : t \in flows[k].later}
AllSteps(k) == {Ac(k, Whole), Ac(k, L(<<D("B", {})>>)), Pn(k, "right"), Pn(k, "wrong"), To(k), Au(k, "own"), Au(k, "other"), Co(k, Whole, None), Co(k, L(<<"a1">>), None), Co(k, L(<<"a3", "zz">>), None), Sv(k), Ca(k)}
                \cup UNION {{De(k, t) : t \in flows[j].later} : j \in {k} \cap Ks} \cup {De(k, [id |-> "a1", k |-> Unknown])}
Picks == {Whole, L(<<D("A", {})>>), L(<<D("B", {"email"})>>), L(<<D("B", {}), D("A", {"given", "email"})>>), L(<<D("A", {"given"})>>), L(<<D("A", {"family"}), D("B", {})>>)}

Grantings == {"pre", "tx", "code", "pre+code", None}
Moves ==
  CASE Focus = "issue" -> (IF n = 1 THEN {MkO("alice", <<"A", "B">>, g, v) : g \in Grantings, v \in {"val", "ref"}} ELSE {}) \cup (IF Ks = {} THEN {Tk("w1", o) : o \in Os} ELSE {})
                          \cup UNION {Steps(k, {Whole, L(<<D("A", {})>>)}) \cup {Pn(k, "wrong"), Ca(k)} : k \in Ks}
    [] Focus = "claims" -> (IF n = 1 THEN {MkO("alice", <<"A", "B">>, g, "val") : g \in {"pre", "code"}} ELSE {}) \cup (IF Ks = {} THEN {Tk("w1", o) : o \in Os} ELSE {})
                          \cup UNION {Steps(k, Picks) : k \in Ks}
    [] Focus = "race" -> (IF n = 1 THEN {MkO("alice", <<"A">>, g, v) : g \in {"pre", "code", "pre+code"}, v \in {"val", "ref"}} ELSE {}) \cup (IF Cardinality(Ks) < 2 THEN {Tk(w, o) : w \in Wallets, o \in Os} ELSE {})
                          \cup UNION {Steps(k, {Whole}) : k \in Ks}
    [] Focus = "later" -> (IF n = 1 THEN {MkO("alice", <<"B", "A">>, "pre", "val")} ELSE {}) \cup (IF Ks = {} /\ n < 3 THEN {Tk("w1", o) : o \in Os} ELSE {})
                          \cup UNION {Steps(k, {Whole}) \cup {Co(k, L(<<"a2">>), None)} : k \in Ks} \cup {Rd("alice", i) : i \in {x \in {"a2", "b1"} : <<"alice", x>> \in pend}}
    [] Focus = "start" -> (IF Cardinality(Ks) < 2 /\ n < 3 THEN {Sr(w, x, None, "own") : w \in Wallets, x \in {L(<<D("A", {})>>), L(<<D("B", {}), D("A", {"given"})>>)}} \cup {Sr(w, Whole, s, "own") : w \in Wallets, s \in {"sA", "sB"}} ELSE {})
                          \cup UNION {{Co(k, Whole, IF flows[k].scope = None THEN None ELSE c) : c \in Configs} \cup {Sv(k)} : k \in Ks}
    [] Focus = "time" -> (IF n = 1 THEN {MkO("alice", <<"A">>, g, v) : g \in {"tx", "code"}, v \in {"val", "ref"}} ELSE {}) \cup (IF Ks = {} /\ held["w1"] = {} THEN {Tk("w1", o) : o \in Os} ELSE {})
                          \cup UNION {Steps(k, {Whole}) : k \in Ks}
    [] Focus = "show" -> (IF n = 1 THEN {MkO(s, <<"A">>, "pre", "val") : s \in {"alice", "bob"}} \cup {MkO("alice", <<"B", "A">>, "pre", "val")} ELSE {}) \cup (IF n = 2 THEN {Tk("w1", o) : o \in Os} ELSE {})
                          \cup (IF n <= 6 THEN UNION {Steps(k, {Whole}) : k \in Ks} ELSE {})
                          \cup (IF held["w1"] # {} /\ Qs = {} THEN {As(d, h) : d \in {<<"A">>, <<"Ae">>, <<"Al">>, <<"A", "B">>, <<"B", "Ae">>, <<"Ao">>}, h \in {"cross", "same"}} ELSE {})
                          \cup (IF Cardinality(Ps) < 1 THEN {Rq("w1", k) : k \in Qs} ELSE {}) \cup {Cn(p) : p \in Ps} \cup {Pr(p) : p \in Ps}
    [] Focus = "asks" -> (IF n = 1 THEN {MkO("alice", <<"A">>, "pre", "val")} ELSE {}) \cup (IF n = 2 THEN {Tk("w1", o) : o \in Os} ELSE {})
                          \cup (IF n <= 6 THEN UNION {Steps(k, {Whole}) : k \in Ks} ELSE {})
                          \cup (IF held["w1"] # {} /\ Cardinality(Qs) < 2 THEN {As(<<"A">>, h) : h \in {"cross", "same"}} ELSE {})
                          \cup (IF Cardinality(Ps) < 2 THEN {Rq("w1", k) : k \in Qs} ELSE {}) \cup {Cn(p) : p \in Ps} \cup {Pr(p) : p \in Ps}
Ticks == CASE Focus = "time" -> {d \in {200, 290, 650} : now + d < 1300} [] Focus = "asks" -> {d \in {290} : Qs # {} /\ now < 600} [] OTHER -> {}
Probes ==
  CASE Focus \in {"issue", "time"} -> UNION {AllSteps(k) : k \in Ks \cup {Unknown}} \cup {Tk(w, o) : w \in Wallets, o \in Os \cup {Unknown}} \cup (IF n = 1 THEN {MkO("bob", <<"B">>, g, "val") : g \in {"pre", "code"}} ELSE {})
    [] Focus = "claims" -> UNION {{Ac(k, x) : x \in Picks \cup {L(<<D("Z", {})>>)}} \cup AllSteps(k) : k \in Ks}
    [] Focus \in {"race", "later"} -> UNION {AllSteps(k) : k \in Ks} \cup {Tk(w, o) : w \in Wallets, o \in Os}
    [] Focus = "start" -> {Sr(w, x, None, r) : w \in Wallets, x \in {L(<<D("A", {})>>), L(<<D("B", {})>>), L(<<D("A", {"family"})>>), L(<<D("Z", {})>>)}, r \in {"own", "other"}} \cup {Sr(w, Whole, s, "own") : w \in Wallets, s \in {"sA", "sB", "sZ"}}
                          \cup UNION {{Co(k, i, f) : i \in {Whole, L(<<"a1">>)}, f \in IF flows[k].scope = None THEN {None} ELSE {None, "A", "B"}} \cup {Sv(k), Ca(k)} : k \in Ks}
    [] Focus \in {"show", "asks"} -> {Rq(w, k) : w \in Wallets, k \in Qs \cup {Unknown}} \cup {Cn(p) : p \in Ps \cup {Unknown}} \cup {Pr(p) : p \in Ps \cup {Unknown}}

Init == /\ now = 0 /\ n = 1 /\ offers = <<>> /\ flows = <<>> /\ held = [w \in Wallets |-> {}] /\ asks = <<>> /\ pres = <<>> /\ hist = <<>>
        /\ pend = IF Focus \in {"later", "issue"} THEN {<<"alice", "a2">>, <<"alice", "b1">>} ELSE {}
Next == Len(hist) < Depth /\ ((\E a \in Moves : Outcome(a).fails = {} /\ Call(a)) \/ \E d \in Ticks : Tick(d))
Spec == Init /\ [][Next]_vars
View == <<now, offers, flows, pend, held, asks, pres>>
Tried == {[a |-> a, n |-> n, exp |-> Expect(Outcome(a))] : a \in Probes}
Emit == PrintT(ToJson([hist |-> hist, pend |-> SetToSeq(IF Focus \in {"later", "issue"} THEN {<<"alice", "a2">>, <<"alice", "b1">>} ELSE {}), tries |-> {t \in Tried : ~t.exp.open}]))
=============================================================================
