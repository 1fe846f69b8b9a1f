----------------------------- MODULE VerifierMC -----------------------------
(* Explores Verifier.tla: which calls move the verifier (Moves) and which are *)
(* tried in every reachable state (Probes).  In the first states (histories   *)
(* shorter than Echo) every call tried is also followed up (After).           *)
EXTENDS Verifier, Json
CONSTANTS Focus, Depth, Pairs, Echo
VARIABLE last

Make(client, flow, descs) == [op |-> "create", client |-> client, flow |-> flow, descs |-> descs]
Lookup(client, k) == [op |-> "object", client |-> client, ref |-> k]
Send(k, r) == [op |-> "response", state |-> k, resp |-> r]
Info(c) == [op |-> "metadata", client |-> c]

(************************* responses: a right one, and ways to spoil it *****)
CredFor(d) == [typ |-> IF d.typ = "CredB" THEN "CredB" ELSE "CredA", sig |-> "ok", until |-> "none", role |-> IF d.role = "-" THEN None ELSE "x"]
FmtFor(d) == IF d.fmt = None THEN "jwt_vc_json" ELSE d.fmt
Right(k) == LET q == reqs[k].descs IN
  [tok |-> "list", vps |-> <<[by |-> "h1", sig |-> "ok", nonce |-> k, creds |-> [i \in 1..Len(q) |-> CredFor(Descriptor[q[i]])]]>>,
   sub |-> "given", def |-> k, map |-> [i \in 1..Len(q) |-> [id |-> Descriptor[q[i]].id, fmt |-> FmtFor(Descriptor[q[i]]), vp |-> 1, i |-> i, path |-> "at"]]]
Others(k) == (DOMAIN reqs \ {k}) \cup {Unknown}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Spare == [typ |-> "CredA", sig |-> "ok", until |-> "none", role |-> "y"]
Split(r) == IF Len(r.vps) # 1 \/ Len(r.vps[1].creds) # 2 THEN {}
            ELSE {[r EXCEPT !.vps = <<[@[1] EXCEPT !.creds = <<@[1]>>], [@[1] EXCEPT !.creds = <<@[2]>>]>>,
                            !.map = [i \in 1..Len(@) |-> [@[i] EXCEPT !.vp = r.map[i].i, !.i = 1]]]}
Twist(r, k) ==
  {[r EXCEPT !.tok = "none"], [r EXCEPT !.vps = <<>>], [r EXCEPT !.sub = "none"]}
  \cup {[r EXCEPT !.def = j] : j \in Others(k)}
  \cup UNION {{[r EXCEPT !.vps[v].sig = s] : s \in {"bad", "ghost", "object", "tampered"}} \cup {[r EXCEPT !.vps[v].nonce = j] : j \in Others(k)} \cup {[r EXCEPT !.vps[v].by = "h2"]}
              \cup {[r EXCEPT !.vps[v].creds = Append(@, c)] : c \in {Spare, [Spare EXCEPT !.sig = "bad"]}}
              \cup {[r EXCEPT !.vps = Append(@, [@[v] EXCEPT !.creds = <<>>])]}
              \cup UNION {{[r EXCEPT !.vps[v].creds[c].sig = s] : s \in {"bad", "ghost", "object", "tampered", "vp"}} \cup {[r EXCEPT !.vps[v].creds[c].until = s] : s \in {"past", "soon"}}
                          \cup {[r EXCEPT !.vps[v].creds[c].typ = s] : s \in {"CredA", "CredB", "CredC"}} \cup {[r EXCEPT !.vps[v].creds[c].role = s] : s \in {None, "x", "y"}} : c \in 1..Len(r.vps[v].creds)} : v \in 1..Len(r.vps)}
  \cup UNION {{[r EXCEPT !.map = Drop(@, m)], [r EXCEPT !.map[m].id = "zz"]} \cup {[r EXCEPT !.map[m].fmt = f] : f \in {"ldp_vc", "jwt_vc_json", ""}} \cup {[r EXCEPT !.map[m].path = p] : p \in {"all", "bad", "root", "id"}}
              \cup {[r EXCEPT !.map[m].i = i] : i \in 1..3} \cup {[r EXCEPT !.map = Append(@, [@[m] EXCEPT !.id = "extra"])]} : m \in 1..Len(r.map)}
  \cup {[r EXCEPT !.map = Reverse(@)]} \cup Split(r)
Once(k) == {Right(k)} \cup Twist(Right(k), k)
Twice(k) == Once(k) \cup UNION {Twist(r, k) : r \in Twist(Right(k), k)}

(************************* what is looked at *******************************)
Lists == {<<>>, <<"A">>, <<"A", "B">>, <<"Ax">>, <<"Ao">>, <<"Af">>, <<"N">>, <<"Bf", "Ax">>, <<"B", "Ao", "Af">>}
CreateMoves == IF n <= 2 THEN {Make(v, f, d) : v \in Verifiers, f \in {"same", "cross"}, d \in {<<"A">>, <<"Bf", "Ax">>}} ELSE {}
CreateProbes == (IF n <= 2 THEN {Make(v, f, d) : v \in Verifiers \cup {"vX"}, f \in {"same", "cross"}, d \in Lists} ELSE {})
                \cup {Lookup(v, k) : v \in Verifiers \cup {"vX"}, k \in DOMAIN reqs \cup {Unknown}} \cup {Info(v) : v \in Verifiers \cup {"vX"}}
AnswerMoves == IF n = 1 THEN {Make("v1", f, d) : f \in {"same", "cross"}, d \in Lists \ {<<>>}} ELSE IF n = 2 /\ reqs[1].descs \in {<<"Ax">>, <<"A", "B">>} THEN {Make("v1", "cross", reqs[1].descs)} ELSE {}
AnswerProbes == UNION {{Send(k, r) : r \in IF Pairs /\ reqs[k].flow = "cross" /\ n = 2 THEN Twice(k) ELSE Once(k)} : k \in DOMAIN reqs}
                \cup {Send(j, Right(k)) : k \in DOMAIN reqs, j \in DOMAIN reqs \cup {0, Unknown}}
Bad(k) == {[Right(k) EXCEPT !.vps[1].nonce = Unknown], [Right(k) EXCEPT !.map = <<>>]}
LifeMoves == (IF Cardinality(DOMAIN reqs) < 2 THEN {Make("v1", f, <<"A">>) : f \in {"same", "cross"}} ELSE {})
             \cup {Send(k, r) : k \in DOMAIN reqs, r \in UNION {{Right(k)} \cup Bad(k) : k \in DOMAIN reqs}} \cup {Lookup("v1", k) : k \in DOMAIN reqs}
LifeProbes == {Send(k, Right(j)) : k, j \in DOMAIN reqs} \cup {Lookup("v1", k) : k \in DOMAIN reqs}

Moves == CASE Focus = "create" -> CreateMoves [] Focus = "answer" -> AnswerMoves [] Focus = "life" -> LifeMoves
Probes == CASE Focus = "create" -> CreateProbes [] Focus = "answer" -> AnswerProbes [] Focus = "life" -> LifeProbes
Ticks == CASE Focus = "life" -> IF reqs # <<>> /\ now < 460 THEN {149, 153} ELSE {} [] Focus = "create" -> IF now = 0 /\ n > 1 THEN {302} ELSE {} [] OTHER -> {}

\* calls that show what is left after any other call
Followed == IF Focus = "answer" THEN UNION {{Send(k, r) : r \in Once(k)} : k \in DOMAIN reqs} \cup {Send(j, Right(k)) : k \in DOMAIN reqs, j \in DOMAIN reqs \cup {0, Unknown}} ELSE Probes
After == {Send(k, Right(k)) : k \in DOMAIN reqs} \cup {Lookup(reqs[k].client, k) : k \in DOMAIN reqs}

Init == now = 0 /\ n = 1 /\ reqs = <<>> /\ hist = <<>> /\ last = <<>>
Follow == Len(hist) < Echo /\ \E a \in Followed : Outcome(a).only = None /\ Call(a) /\ last' = <<a>>
Move == /\ Len(hist) < Depth /\ UNCHANGED last
        /\ (\E a \in Moves : Call(a)) \/ (\E d \in Ticks : Tick(d))
Next == last = <<>> /\ (Move \/ Follow)
Spec == Init /\ [][Next]_<<vars, last>>
\* which of the requests answered badly is kept: the code might wear out
View == <<now, n, reqs, last, IF Focus = "life" THEN [k \in DOMAIN reqs |-> \E i \in 1..Len(hist) : hist[i].a.op = "response" /\ hist[i].a.state = k] ELSE <<>>>>
Tried == {[a |-> a, n |-> n, exp |-> Expect(Outcome(a))] : a \in IF last = <<>> THEN Probes ELSE After \cup {last[1]}}
Emit == PrintT(ToJson([hist |-> hist, tries |-> {t \in Tried : ~t.exp.open}]))
=============================================================================
