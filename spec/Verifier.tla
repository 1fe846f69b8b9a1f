------------------------------ MODULE Verifier ------------------------------
(***************************************************************************)
(* The verifier's endpoints (vercre-verifier): creating a presentation      *)
(* request, serving its request object, taking the wallet's response.       *)
(*                                                                          *)
(* A call is a record [op, ..arguments..]; Outcome(call) says which         *)
(* properties require it to be refused (fails), which are broken by         *)
(* refusing it (hon), whether nothing is promised (open), what the answer   *)
(* must hold (res) and which requests are held afterwards (reqs).           *)
(* Requests are named by the counter `n' when they were created.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES now, n, reqs, hist
vars == <<now, n, reqs, hist>>

None == "none"
Unknown == 99
Life == 300
If(b, p) == IF b THEN p ELSE {}
Verifiers == {"v1", "v2"}

(************************* what can be asked for ***************************)
\* an input descriptor: the type required, a claim `role' required (x), optional (o) or not looked at (-), the formats allowed
D(id, typ, role, fmt) == [id |-> id, typ |-> typ, role |-> role, fmt |-> fmt]
Descriptor == [A |-> D("A", "CredA", "-", None), B |-> D("B", "CredB", "-", None), Ax |-> D("Ax", "CredA", "x", None), Ao |-> D("Ao", "CredA", "o", None),
               Af |-> D("Af", "CredA", "-", "jwt_vc_json"), Bf |-> D("Bf", "CredB", "-", "ldp_vc"), N |-> D("N", "any", "-", None)]
\* a credential: its type, who signed it and how, when it ends (relative to now), its `role' claim
Fits(c, d) == /\ d.typ \in {"any", c.typ}
              /\ d.role = "x" => c.role = "x"
              /\ d.role = "o" => c.role \in {"x", None}
Valid(c) == c.sig = "ok" /\ c.until # "past"

(************************* responses ***************************************)
\* which credential a submission's path selects: <<>> if not exactly one
At(r, m) == IF m.vp \notin 1..Len(r.vps) THEN <<>>
            ELSE LET cs == r.vps[m.vp].creds IN
                 CASE m.path = "all" -> IF Len(cs) = 1 THEN <<cs[1]>> ELSE <<>>
                   [] m.path = "at" -> IF m.i \in 1..Len(cs) THEN <<cs[m.i]>> ELSE <<>>
                   [] OTHER -> <<>>
Mapped(r, id) == {i \in 1..Len(r.map) : r.map[i].id = id}
First(s) == CHOOSE i \in s : \A j \in s : i <= j
Met(r, d, m) == LET c == At(r, m) IN
                /\ d.fmt # None => m.fmt = d.fmt
                /\ c # <<>> /\ Valid(c[1]) /\ Fits(c[1], d)
Asks(r, q, k, sigs) ==
  /\ r.tok = "list" /\ \A i \in 1..Len(r.vps) : r.vps[i].sig \in sigs /\ r.vps[i].nonce = k
  /\ r.sub = "given" /\ r.def = k
  /\ \A i \in 1..Len(q.descs) : LET d == Descriptor[q.descs[i]] IN Mapped(r, d.id) # {} /\ Met(r, d, r.map[First(Mapped(r, d.id))])
Proves(r, q, k) == Asks(r, q, k, {"ok"})
\* not promised: several mappings of one descriptor, or faulty credentials nobody asked for
Murky(r, q) == \/ \E i, j \in 1..Len(r.map) : i # j /\ r.map[i].id = r.map[j].id
               \/ \E i \in 1..Len(r.vps) : \E j \in 1..Len(r.vps[i].creds) :
                    r.vps[i].creds[j].sig # "ok" /\ ~\E m \in 1..Len(r.map) : r.map[m].vp = i /\ r.map[m].i = j /\ r.map[m].path = "at"

(************************* calls *******************************************)
Exists(k) == k \in DOMAIN reqs
Open(k) == Exists(k) /\ reqs[k].st = "open"
Expired(k) == Exists(k) /\ now > reqs[k].born + Life
Gone(k) == If(Exists(k) /\ reqs[k].st = "answered", {"C23"}) \cup If(Expired(k), {"C23"})
Refuse(own) == [fails |-> own, open |-> FALSE, hon |-> {}, res |-> None, reqs |-> reqs, only |-> None]

Create(a) ==
  IF a.client \notin Verifiers \/ a.descs = <<>> THEN Refuse({"C21"})
  ELSE [fails |-> {}, only |-> None, open |-> FALSE, hon |-> {"C21"}, res |-> [client |-> a.client, flow |-> a.flow, descs |-> a.descs],
        reqs |-> (n :> [client |-> a.client, flow |-> a.flow, descs |-> a.descs, born |-> now, st |-> "open"]) @@ reqs]
Serve(a) ==
  LET k == a.ref
      f == Gone(k) \cup If(~Exists(k), {"C21"}) \cup If(Exists(k) /\ (reqs[k].client # a.client \/ reqs[k].flow # "cross"), {"C21"})
  IN IF f # {} THEN Refuse(f) ELSE [fails |-> {}, only |-> None, open |-> FALSE, hon |-> {"C21", "C23"}, res |-> [client |-> a.client, flow |-> "cross", descs |-> reqs[k].descs, n |-> k], reqs |-> reqs]
Respond(a) ==
  LET k == a.state
      good == Exists(k) /\ Proves(a.resp, reqs[k], k)
      f == Gone(k) \cup If(~good, {"C22"})
      \* the one fault is that a presentation is a plain JSON object (see known-findings.txt)
      plain == f = {"C22"} /\ Exists(k) /\ Asks(a.resp, reqs[k], k, {"ok", "object"})
  IN IF f # {} THEN [Refuse(f) EXCEPT !.only = IF plain THEN "plain presentation" ELSE None]
     ELSE [fails |-> {}, only |-> None, open |-> Murky(a.resp, reqs[k]), hon |-> {"C22", "C23"}, res |-> None, reqs |-> [reqs EXCEPT ![k].st = "answered"]]
Meta(a) == IF a.client \in Verifiers THEN [fails |-> {}, only |-> None, open |-> FALSE, hon |-> {"C21"}, res |-> [client |-> a.client], reqs |-> reqs] ELSE Refuse({"C21"})

Outcome(a) == CASE a.op = "create" -> Create(a) [] a.op = "object" -> Serve(a) [] a.op = "response" -> Respond(a) [] a.op = "metadata" -> Meta(a)
Expect(o) == [fails |-> o.fails, only |-> o.only, open |-> o.open, hon |-> o.hon, res |-> o.res]

Call(a) == LET o == Outcome(a) IN
           /\ ~o.open
           /\ reqs' = o.reqs /\ n' = n + 1 /\ now' = now
           /\ hist' = Append(hist, [a |-> a, n |-> n, exp |-> Expect(o)])
Tick(d) == /\ now' = now + d /\ UNCHANGED <<n, reqs>>
           /\ hist' = Append(hist, [a |-> [op |-> "tick", d |-> d], n |-> n, exp |-> Expect(Refuse({}))])

(************************* properties on the model *************************)
Accepted(k) == {i \in 1..Len(hist) : hist[i].a.op = "response" /\ hist[i].a.state = k /\ hist[i].exp.fails = {}}
Clock(i) == FoldLeft(LAMBDA t, h : IF h.a.op = "tick" THEN t + h.a.d ELSE t, 0, SubSeq(hist, 1, i))
Born(k) == CHOOSE i \in 1..Len(hist) : hist[i].a.op = "create" /\ hist[i].n = k
AtMostOnce == \A k \in DOMAIN reqs : Cardinality(Accepted(k)) <= 1
NothingLate == \A i \in 1..Len(hist) : (hist[i].a.op \in {"object", "response"} /\ hist[i].exp.fails = {}) =>
                 LET k == IF hist[i].a.op = "object" THEN hist[i].a.ref ELSE hist[i].a.state IN Clock(i) - Clock(Born(k)) <= Life
OnlyProven == \A k \in DOMAIN reqs : \A i \in Accepted(k) : Proves(hist[i].a.resp, reqs[k], k)
StaysOpen == \A k \in DOMAIN reqs : Accepted(k) = {} => reqs[k].st = "open"
=============================================================================
