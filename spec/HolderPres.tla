----------------------------- MODULE HolderPres -----------------------------
(***************************************************************************)
(* A wallet answering presentation requests (vercre-holder): it takes a     *)
(* request (by reference to a signed object, or as a query string), shows   *)
(* which credentials would be presented, waits for its holder's consent,    *)
(* and only then sends them.  Outcomes are as in Holder.tla.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Focus, Depth, Echo

VARIABLES n, flows, wallet, hist, last
vars == <<n, flows, wallet, hist, last>>
None == "none"
Unknown == 99
If(b, p) == IF b THEN p ELSE {}
Members(s) == {s[i] : i \in DOMAIN s}

(************************* credentials and what is asked for ***************)
Creds == {"a", "ax", "ay", "b", "bx"}
Typ(c) == IF c \in {"b", "bx"} THEN "CredB" ELSE "CredA"
Role(c) == CASE c \in {"ax", "bx"} -> "x" [] c = "ay" -> "y" [] OTHER -> None
Fits(c, d) == CASE d = "A" -> Typ(c) = "CredA" [] d = "B" -> Typ(c) = "CredB" [] d = "N" -> TRUE
                [] d = "X" -> Role(c) = "x"
                [] d = "Ax" -> Typ(c) = "CredA" /\ Role(c) = "x"
                [] d = "Ao" -> Typ(c) = "CredA" /\ Role(c) \in {"x", None}
Matching(descs) == {c \in wallet : \E i \in 1..Len(descs) : Fits(c, descs[i])}
\* no descriptor asks for a constant (see known-findings.txt)
NoConstant(descs) == \A i \in 1..Len(descs) : descs[i] \in {"N", "X"}
Answerable(descs, cs) == \A i \in 1..Len(descs) : \E c \in cs : Fits(c, descs[i])

(************************* calls *******************************************)
Refuse(own, quiet) == [fails |-> own, hon |-> {}, open |-> FALSE, quiet |-> quiet, res |-> [no |-> TRUE], flows |-> flows, wallet |-> wallet]
Done(own, res, fl) == [fails |-> {}, hon |-> own, open |-> FALSE, quiet |-> FALSE, res |-> res, flows |-> fl, wallet |-> wallet]
At(k, st) == k \in DOMAIN flows /\ flows[k].st \in st
Keep(a) == [Done({}, [no |-> TRUE], flows) EXCEPT !.wallet = wallet \cup {a.cred}]
Request(a) ==
  IF a.descs = <<>> \/ (a.form = "uri" /\ a.sig # "ok") THEN Refuse({"C26"}, FALSE)
  ELSE LET m == Matching(a.descs) IN
       Done({"C26"}, [creds |-> m], (n :> [st |-> "asked", descs |-> a.descs, creds |-> m]) @@ flows)
Consent(a) == IF ~At(a.flow, {"asked"}) THEN Refuse({"C26"}, TRUE)
              ELSE Done({"C26"}, [no |-> TRUE], [flows EXCEPT ![a.flow].st = "agreed"])
\* presenting again what was agreed to is not promised, nor what happens if something asked for is missing
Present(a) ==
  IF ~At(a.flow, {"agreed", "sent"}) THEN Refuse({"C26"}, TRUE)
  ELSE LET f == flows[a.flow] IN
       IF ~Answerable(f.descs, f.creds) \/ f.st = "sent" THEN [Refuse({}, TRUE) EXCEPT !.open = TRUE]
       ELSE IF a.env = "fail" THEN Refuse({"C26"}, FALSE)
       ELSE Done({"C26"}, [flow |-> a.flow, noconst |-> NoConstant(f.descs), creds |-> f.creds, map |-> [i \in 1..Len(f.descs) |-> [id |-> f.descs[i], fit |-> {c \in f.creds : Fits(c, f.descs[i])}]]],
                 [flows EXCEPT ![a.flow].st = "sent"])
Outcome(a) == CASE a.op = "keep" -> Keep(a) [] a.op = "request" -> Request(a) [] a.op = "consent" -> Consent(a) [] a.op = "present" -> Present(a)
Expect(o) == [fails |-> o.fails, hon |-> o.hon, open |-> o.open, quiet |-> o.quiet, res |-> o.res]
Call(a) == LET o == Outcome(a) IN
           /\ ~o.open
           /\ flows' = o.flows /\ wallet' = o.wallet /\ n' = n + 1
           /\ hist' = Append(hist, [a |-> a, n |-> n, exp |-> Expect(o)])

(************************* what is looked at *******************************)
K(c) == [op |-> "keep", cred |-> c]
R(form, sig, d) == [op |-> "request", form |-> form, sig |-> sig, descs |-> d]
C(k) == [op |-> "consent", flow |-> k]
P(k, e) == [op |-> "present", flow |-> k, env |-> e]
Lists == {<<>>, <<"A">>, <<"B">>, <<"Ax">>, <<"Ao">>, <<"X">>, <<"N">>, <<"A", "B">>, <<"B", "Ax">>, <<"Ao", "X", "B">>}
Sigs == {"ok", "bad", "ghost", "tampered", "object", "none", "missing"}
Ks == DOMAIN flows
\* "match": every wallet and every request; "order": two requests, every step in every state
Stocks == CASE Focus = "match" -> IF Depth > 6 THEN SUBSET Creds ELSE {w \in SUBSET Creds : Cardinality(w) <= 3} [] OTHER -> {{"a", "b"}}
\* the wallet is filled in a fixed order, then left alone
Order == <<"a", "ax", "ay", "b", "bx">>
Filling == IF hist = <<>> \/ hist[Len(hist)].a.op = "keep"
           THEN LET from == IF hist = <<>> THEN 1 ELSE 1 + CHOOSE i \in 1..5 : Order[i] = hist[Len(hist)].a.cred IN {K(Order[i]) : i \in from..5} ELSE {}
Moves == CASE Focus = "match" -> {k \in Filling : wallet \cup {k.cred} \in {x \in SUBSET Creds : Depth > 6 \/ Cardinality(x) <= 3}}
                                 \cup (IF Ks = {} THEN {R(f, "ok", d) : f \in {"uri", "query"}, d \in Lists \ {<<>>}} ELSE {}) \cup {C(k) : k \in Ks}
           [] Focus = "order" -> (IF wallet = {} THEN {K("a")} ELSE IF wallet = {"a"} /\ Ks = {} THEN {K("b")} ELSE {})
                                 \cup (IF wallet # {} /\ Cardinality(Ks) < 2 THEN {R(f, "ok", d) : f \in {"uri", "query"}, d \in {<<"A">>, <<"A", "B">>}} ELSE {})
                                 \cup {C(k) : k \in Ks} \cup {P(k, "ok") : k \in Ks}
Probes == CASE Focus = "match" -> {R(f, "ok", d) : f \in {"uri", "query"}, d \in IF Ks = {} THEN Lists ELSE {}} \cup {P(k, "ok") : k \in Ks}
            [] Focus = "order" -> {R(f, g, d) : f \in {"uri", "query"}, g \in Sigs, d \in {<<>>, <<"A">>}} \cup UNION {{C(k), P(k, "ok"), P(k, "fail")} : k \in Ks \cup {1, Unknown}}
Init == n = 1 /\ flows = <<>> /\ wallet = {} /\ hist = <<>> /\ last = <<>>
Move == Len(hist) < Depth /\ UNCHANGED last /\ \E a \in Moves : Outcome(a).fails = {} /\ Call(a)
\* in the first states, every call tried is also followed up
Follow == Len(hist) < Echo /\ \E a \in Probes : (IF "noconst" \in DOMAIN Outcome(a).res THEN ~Outcome(a).res.noconst ELSE TRUE) /\ Call(a) /\ last' = <<a>>
Next == last = <<>> /\ (Move \/ Follow)
Spec == Init /\ [][Next]_vars
View == <<flows, wallet, last>>
After == UNION {{C(k), P(k, "ok")} : k \in Ks}

(************************* the property on the model ***********************)
Ok(i) == hist[i].exp.fails = {}
Before(i, k, op) == {j \in 1..(i - 1) : Ok(j) /\ hist[j].a.op = op /\ (IF op = "request" THEN hist[j].n ELSE hist[j].a.flow) = k}
ConsentFirst == \A i \in 1..Len(hist) : (hist[i].a.op = "present" /\ Ok(i)) => Before(i, hist[i].a.flow, "consent") # {} /\ Before(i, hist[i].a.flow, "request") # {}
OnlyMatching == \A i \in 1..Len(hist) : (hist[i].a.op = "present" /\ Ok(i)) =>
                  \A j \in Before(i, hist[i].a.flow, "request") : hist[i].exp.res.creds = {c \in hist[j].exp.res.creds : \E d \in Members(hist[j].a.descs) : Fits(c, d)}
OnlySigned == \A i \in 1..Len(hist) : (hist[i].a.op = "request" /\ Ok(i) /\ hist[i].a.form = "uri") => hist[i].a.sig = "ok"

Tried == {[a |-> a, n |-> n, exp |-> Expect(Outcome(a))] : a \in IF last = <<>> THEN Probes ELSE After \cup {last[1]}}
Emit == PrintT(ToJson([hist |-> hist, tries |-> Tried]))
=============================================================================
