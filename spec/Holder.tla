------------------------------- MODULE Holder -------------------------------
(***************************************************************************)
(* A wallet's issuance flow (vercre-holder): taking an offer (or starting   *)
(* on its own), accepting, the PIN, authorization and token, requesting     *)
(* credentials, collecting deferred ones, saving or cancelling.             *)
(*                                                                          *)
(* A call is a record [op, ..arguments..]; Outcome(call) says which         *)
(* properties require it to be refused (fails), which are broken by         *)
(* refusing it (hon), whether nothing is promised (open), what must be sent *)
(* to the issuer (sent), what must be answered (res), and the flows, the    *)
(* issuer's counters and the wallet's credentials afterwards.  The issuer   *)
(* is part of the environment: `env' in a call says how it reacts.  Flows   *)
(* are named by the counter `n' when they began, credentials and deferred   *)
(* transactions by the identifier they were issued for and a count.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES n, flows, cnt, kept, hist
vars == <<n, flows, cnt, kept, hist>>

None == "none"
Unknown == 99
If(b, p) == IF b THEN p ELSE {}
Members(s) == {s[i] : i \in DOMAIN s}

\* a choice: everything, or a list
Whole == [any |-> TRUE, list |-> <<>>]
L(s) == [any |-> FALSE, list |-> s]
Nothing == [no |-> TRUE]

(************************* the issuers *************************************)
Supported == {"A", "B", "C"}
Issuers == {"i1", "i2"}                        \* i2's authorization server has no authorization code grant
IdsOf == [A |-> <<"a1", "a2">>, B |-> <<"b1">>, C |-> <<"c1">>]
CfgOf == [a1 |-> "A", a2 |-> "A", b1 |-> "B", c1 |-> "C", fA |-> "A", fB |-> "B", fC |-> "C"]
Later == {"a2", "c1", "fC"}                          \* what is issued only later
ScopeOf == [A |-> "sa", B |-> "sb", C |-> "sa"]
FmtId == [A |-> "fA", B |-> "fB", C |-> "fC"]
AllIds == DOMAIN CfgOf

HasPre(g) == g \in {"pre", "tx", "pre+code", "tx+code"}
NeedsPin(g) == g \in {"tx", "tx+code"}
HasCode(f) == IF f.grants = None THEN f.issuer = "i1" ELSE f.grants \in {"code", "pre+code", "tx+code"}

(************************* names *******************************************)
Nm(id, k) == [id |-> id, k |-> k]
\* a credential or transaction issued for each identifier, `m' of them
Fresh(ids, m) == UNION {{Nm(id, cnt[id] + j) : j \in 1..m} : id \in ids}
Count(ids, m) == [id \in AllIds |-> IF id \in ids THEN cnt[id] + m ELSE cnt[id]]

(************************* outcomes ****************************************)
Refuse(own) == [fails |-> own, hon |-> {}, open |-> FALSE, quiet |-> TRUE, sent |-> <<>>, anysent |-> FALSE, res |-> Nothing, flows |-> flows, cnt |-> cnt, kept |-> kept]
\* refused, but only after asking the issuer
Failed(own) == [Refuse(own) EXCEPT !.quiet = FALSE, !.anysent = TRUE]
Done(own, sent, res, fl) == [fails |-> {}, hon |-> own, open |-> FALSE, quiet |-> FALSE, sent |-> sent, anysent |-> FALSE, res |-> res, flows |-> fl, cnt |-> cnt, kept |-> kept]
Open == [Refuse({}) EXCEPT !.open = TRUE]
Exists(k) == k \in DOMAIN flows
At(k, st) == Exists(k) /\ flows[k].st = st
With(k, f) == (k :> f) @@ flows
Without(k) == [j \in DOMAIN flows \ {k} |-> flows[j]]
Blank == [st |-> "ready", init |-> "issuer", issuer |-> "i1", cfgs |-> <<>>, grants |-> None, acc |-> Whole, pin |-> None, scope |-> None, auth |-> <<>>, creds |-> {}, later |-> {}, notify |-> FALSE]

\* what is asked for: the accepted details, or everything offered
Asked(f) == f.acc
Wanted(f) == IF f.acc.any THEN f.cfgs ELSE [i \in 1..Len(f.acc.list) |-> f.acc.list[i].cfg]
Granted(f) == [i \in 1..Len(Wanted(f)) |-> [cfg |-> Wanted(f)[i], ids |-> IdsOf[Wanted(f)[i]]]]

Offer(a) ==
  IF a.cfgs = <<>> \/ ~(Members(a.cfgs) \subseteq Supported) \/ a.issuer \notin Issuers THEN Failed({"C24"})
  ELSE Done({"C24"}, <<>>, [issuer |-> a.issuer, cfgs |-> a.cfgs, grants |-> a.grants, flow |-> n],
            With(n, [Blank EXCEPT !.issuer = a.issuer, !.cfgs = a.cfgs, !.grants = a.grants]))
Accept(a) ==
  LET f == flows[a.flow] IN
  IF ~At(a.flow, "ready") THEN Refuse({"C24"})
  ELSE IF ~a.acc.any /\ (a.acc.list = <<>> \/ \E i \in 1..Len(a.acc.list) : a.acc.list[i].cfg \notin Members(f.cfgs)) THEN Refuse({"C25"})
  ELSE Done({"C24", "C25"}, <<>>, Nothing, With(a.flow, [f EXCEPT !.acc = a.acc, !.st = IF NeedsPin(f.grants) THEN "pin" ELSE "accepted"]))
Pin(a) ==
  IF ~At(a.flow, "pin") THEN Refuse({"C24"})
  ELSE Done({"C24"}, <<>>, Nothing, With(a.flow, [flows[a.flow] EXCEPT !.pin = a.pin, !.st = "accepted"]))
TokenAsk(f, k) == [kind |-> "token", issuer |-> f.issuer, flow |-> k, grant |-> "pre", pin |-> f.pin, details |-> Asked(f)]
Token(a) ==
  LET f == flows[a.flow] IN
  IF ~(At(a.flow, "accepted") /\ HasPre(f.grants)) THEN Refuse({"C24"})
  ELSE IF a.env = "fail" THEN Failed({"C24"})
  ELSE Done({"C24"}, <<TokenAsk(f, a.flow)>>, [flow |-> a.flow, auth |-> Granted(f)],
            With(a.flow, [f EXCEPT !.st = "token", !.auth = Granted(f)]))
\* the authorization request and the token request that follows it
AuthAsk(f, k, init, redir) ==
  <<[kind |-> "authorization", issuer |-> f.issuer, flow |-> k, details |-> Asked(f), scope |-> f.scope,
     istate |-> init = "issuer" /\ f.grants # None, redirect |-> redir, cfgs |-> Wanted(f)],
    [kind |-> "token", issuer |-> f.issuer, flow |-> k, grant |-> "code", redirect |-> redir, details |-> Asked(f)]>>
Authorize(a) ==
  LET f == flows[a.flow] IN
  IF ~(At(a.flow, "accepted") /\ HasCode(f)) THEN Refuse({"C24"})
  ELSE IF a.env = "fail" THEN Failed({"C24"})
  ELSE Done({"C24"}, AuthAsk(f, a.flow, "issuer", a.redirect), [flow |-> a.flow, auth |-> Granted(f)],
            With(a.flow, [f EXCEPT !.st = "token", !.auth = Granted(f)]))
\* a wallet starting on its own: authorization details or a scope, not both
Start(a) ==
  LET f == [Blank EXCEPT !.init = "wallet", !.issuer = a.issuer, !.acc = a.details, !.scope = a.scope] IN
  IF a.details.any = (a.scope = None) \/ a.issuer \notin Issuers THEN [Failed({"C25"}) EXCEPT !.anysent = FALSE]
  ELSE IF a.env = "fail" THEN Failed({"C24"})
  ELSE LET auth == IF a.scope # None THEN <<>> ELSE Granted(f)
       IN Done({"C24"}, AuthAsk(f, n, "wallet", a.redirect), [flow |-> n, auth |-> auth], With(n, [f EXCEPT !.st = "token", !.auth = auth]))

AuthIds(f) == UNION {Members(f.auth[i].ids) : i \in 1..Len(f.auth)}
CredAsk(f, k, id) == [kind |-> "credential", issuer |-> f.issuer, flow |-> k, id |-> id]
Receive(a, f, ids) ==
  LET nowIds == ids \ Later
      lateIds == ids \cap Later
      m == IF a.env = "two" THEN 2 ELSE 1
      later == f.later \cup Fresh(lateIds, 1)
  IN IF ids # {} /\ a.env \in {"fail", "bad", "onebad"} THEN Failed({"C25"})
     ELSE [Done({"C24", "C25"}, SetToSeq({CredAsk(f, a.flow, id) : id \in ids}), [flow |-> a.flow, later |-> later],
                With(a.flow, [f EXCEPT !.creds = @ \cup Fresh(nowIds, m), !.later = later, !.notify = @ \/ (ids # {} /\ a.env # "quiet")]))
           EXCEPT !.cnt = [id \in AllIds |-> IF id \in nowIds THEN cnt[id] + m ELSE IF id \in lateIds THEN cnt[id] + 1 ELSE cnt[id]]]
Credentials(a) ==
  LET f == flows[a.flow] IN
  IF ~At(a.flow, "token") THEN Refuse({"C24"})
  ELSE IF f.scope # None THEN
         LET fit == {c \in Supported : c = a.fmt /\ ScopeOf[c] = f.scope} IN
         IF ~a.ids.any \/ fit = {} THEN [Refuse({"C25"}) EXCEPT !.quiet = FALSE]
         ELSE Receive(a, f, {FmtId[c] : c \in fit})
  ELSE IF a.fmt # None THEN Open
  ELSE Receive(a, f, IF a.ids.any THEN AuthIds(f) ELSE AuthIds(f) \cap Members(a.ids.list))
DefAsk(f, a) == <<[kind |-> "deferred", issuer |-> f.issuer, flow |-> a.flow, tx |-> a.tx]>>
Deferred(a) ==
  LET f == flows[a.flow]
      id == a.tx.id
      rest == f.later \ {a.tx}
  IN IF ~At(a.flow, "token") THEN Refuse({"C24"})
     ELSE IF a.tx \notin f.later THEN IF a.tx.k <= cnt[a.tx.id] THEN Open ELSE Failed({"C25"})
     ELSE IF a.env \in {"fail", "bad", "onebad"} THEN Failed({"C25"})
     ELSE IF a.env = "again" THEN LET later == rest \cup Fresh({id}, 1) IN
            [Done({"C24", "C25"}, DefAsk(f, a), [flow |-> a.flow, later |-> later], With(a.flow, [f EXCEPT !.later = later, !.notify = TRUE])) EXCEPT !.cnt = Count({id}, 1)]
     ELSE LET m == IF a.env = "two" THEN 2 ELSE 1 IN
          [Done({"C24", "C25"}, DefAsk(f, a), [flow |-> a.flow, later |-> rest],
                With(a.flow, [f EXCEPT !.later = rest, !.creds = @ \cup Fresh({id}, m), !.notify = @ \/ a.env # "quiet"])) EXCEPT !.cnt = Count({id}, m)]
Tell(f, k, event) == IF f.notify THEN <<[kind |-> "notification", issuer |-> f.issuer, flow |-> k, event |-> event]>> ELSE <<>>
Save(a) ==
  LET f == flows[a.flow] IN
  IF ~Exists(a.flow) THEN Refuse({"C25"})
  ELSE IF a.env = "full" /\ f.creds # {} THEN [Failed({"C25"}) EXCEPT !.anysent = FALSE, !.sent = Tell(f, a.flow, "credential_failure")]
  ELSE [Done({"C25"}, Tell(f, a.flow, "credential_accepted"), Nothing, IF f.later = {} THEN Without(a.flow) ELSE With(a.flow, [f EXCEPT !.creds = {}, !.notify = FALSE]))
        EXCEPT !.kept = kept \cup f.creds]
Cancel(a) ==
  IF ~Exists(a.flow) THEN Refuse({"C25"})
  ELSE Done({"C25"}, Tell(flows[a.flow], a.flow, "credential_deleted"), Nothing, Without(a.flow))

Outcome(a) == CASE a.op = "offer" -> Offer(a) [] a.op = "accept" -> Accept(a) [] a.op = "pin" -> Pin(a) [] a.op = "token" -> Token(a) [] a.op = "authorize" -> Authorize(a)
                [] a.op = "start" -> Start(a) [] a.op = "credentials" -> Credentials(a) [] a.op = "deferred" -> Deferred(a) [] a.op = "save" -> Save(a) [] a.op = "cancel" -> Cancel(a)
Expect(o) == [fails |-> o.fails, hon |-> o.hon, open |-> o.open, quiet |-> o.quiet, sent |-> o.sent, anysent |-> o.anysent, res |-> o.res, kept |-> o.kept]
Call(a) == LET o == Outcome(a) IN
           /\ ~o.open
           /\ flows' = o.flows /\ cnt' = o.cnt /\ kept' = o.kept /\ n' = n + 1
           /\ hist' = Append(hist, [a |-> a, n |-> n, exp |-> Expect(o)])

(************************* properties on the model *************************)
Sent == UNION {{<<i, hist[i].exp.sent[j]>> : j \in 1..Len(hist[i].exp.sent)} : i \in 1..Len(hist)}
Ok(i) == hist[i].exp.fails = {}
Of(i) == IF hist[i].a.op \in {"offer", "start"} THEN hist[i].n ELSE hist[i].a.flow
Before(i, k, ops) == {j \in 1..(i - 1) : Ok(j) /\ Of(j) = k /\ hist[j].a.op \in ops}
\* C24: nothing is asked of the issuer before the holder accepted, nor without the PIN an offer asks for
InOrder == \A s \in Sent : LET i == s[1] k == Of(i) IN
             /\ s[2].kind \in {"token", "authorization"} => (hist[i].a.op = "start" \/ Before(i, k, {"accept"}) # {})
             /\ s[2].kind \in {"credential", "deferred"} => Before(i, k, {"token", "authorize", "start"}) # {}
             /\ s[2].kind = "token" /\ hist[i].a.op = "token" =>
                  \A j \in Before(i, k, {"offer"}) : /\ HasPre(hist[j].a.grants)
                                                     /\ NeedsPin(hist[j].a.grants) => Before(i, k, {"pin"}) # {}
\* C25: only accepted credentials are asked for, only received ones kept, nothing twice
OnlyAccepted == \A s \in Sent : LET k == Of(s[1]) IN s[2].kind = "credential" =>
                  \A j \in Before(s[1], k, {"accept"}) : ~hist[j].a.acc.any => CfgOf[s[2].id] \in {hist[j].a.acc.list[x].cfg : x \in 1..Len(hist[j].a.acc.list)}
OnlyOffered == \A s \in Sent : LET k == Of(s[1]) IN s[2].kind = "credential" => \A j \in Before(s[1], k, {"offer"}) : CfgOf[s[2].id] \in Members(hist[j].a.cfgs)
KeptWasAsked == \A c \in kept : c.k <= cnt[c.id] /\ \E s \in Sent : s[2].kind = "credential" /\ s[2].id = c.id
Apart == \A j, k \in DOMAIN flows : j # k => flows[j].creds \cap flows[k].creds = {} /\ flows[j].later \cap flows[k].later = {}
Unkept == \A k \in DOMAIN flows : flows[k].creds \cap kept = {}
\* a deferred credential is collectable until it has been received
NothingLost == \A k \in DOMAIN flows : flows[k].st = "token" => \A t \in flows[k].later : Deferred([op |-> "deferred", flow |-> k, tx |-> t, env |-> "ok"]).fails = {}
=============================================================================
