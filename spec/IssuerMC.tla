------------------------------ MODULE IssuerMC ------------------------------
(* Explores Issuer.tla: which calls move the issuer (Moves) and which are    *)
(* tried in every reachable state (Probes), by what is being looked at.      *)
(* In the first states (histories shorter than Echo)  every call tried is    *)
(* also followed up: what it left behind is seen from the calls after it.     *)
EXTENDS Issuer, Json
CONSTANTS Focus, Depth, Echo
VARIABLE last

NoCfg == [pre |-> TRUE, code |-> TRUE, anon |-> TRUE, par |-> FALSE, scopes |-> TRUE, resp |-> TRUE, methods |-> TRUE]
Cfgs == CASE Focus = "offer" -> {[NoCfg EXCEPT !.pre = p, !.code = c] : p, c \in BOOLEAN}
          [] Focus = "token" -> {[NoCfg EXCEPT !.anon = x] : x \in BOOLEAN}
          [] Focus = "auth" -> {NoCfg, [NoCfg EXCEPT !.par = TRUE], [NoCfg EXCEPT !.code = FALSE], [NoCfg EXCEPT !.scopes = FALSE], [NoCfg EXCEPT !.resp = FALSE], [NoCfg EXCEPT !.methods = FALSE]}
          [] OTHER -> {NoCfg}

Of(kind) == {k \in DOMAIN store : k[1] = kind}
Nums(kind) == {k[2] : k \in Of(kind)}
Unknown == 99
(************************* calls *******************************************)
Offer(ids, grants, subject, tx, send) == [op |-> "create_offer", issuer |-> "i1", ids |-> ids, grants |-> grants, subject |-> subject, tx |-> tx, send |-> send]
Fetch(i, m) == [op |-> "credential_offer", issuer |-> i, ref |-> m]
ById(c, cl) == [by |-> "id", cfg |-> c, claims |-> cl]
ByFormat(c, cl) == [by |-> "format", cfg |-> c, claims |-> cl]
Base == [issuer |-> "i1", client |-> "c1", redirect |-> "r1", ch |-> "v1", subject |-> "alice", istate |-> <<>>, details |-> <<ById("A", "none")>>, scope |-> None, state |-> "st"]
Direct(r) == [op |-> "authorize", via |-> "object", par |-> 0, req |-> r]
ViaPar(m) == [op |-> "authorize", via |-> "par", par |-> m, req |-> Base]
PushReq(r) == [op |-> "par", req |-> r]
PreTok(k, pin, client, narrow) == [op |-> "token", grant |-> "pre", key |-> k, pin |-> pin, client |-> client, redirect |-> None, ver |-> None, issuer |-> "i1", narrow |-> narrow]
CodeTok(k, client, redirect, ver) == [op |-> "token", grant |-> "code", key |-> k, pin |-> None, client |-> client, redirect |-> redirect, ver |-> ver, issuer |-> "i1", narrow |-> <<>>]
P(by, m, flaw) == [by |-> by, nonce |-> m, flaw |-> flaw]
Cred(k, by, what, claims, form, proofs) == [op |-> "credential", issuer |-> "i1", tok |-> k, by |-> by, what |-> what, claims |-> claims, form |-> form, proofs |-> proofs]
NonceOf(k) == IF Exists(k) /\ store[k].kind = "tok" THEN store[k].nonce ELSE 0
Good(k, by, what) == Cred(k, by, what, "all", "one", <<P("h1", NonceOf(k), "none")>>)
Later(k, m) == [op |-> "deferred", issuer |-> "i1", tok |-> k, txn |-> m]
Note(k) == [op |-> "notification", key |-> k]
ReadyOf(s, i) == [op |-> "ready", subject |-> s, id |-> i]

AllKeys == DOMAIN store
Ghosts == {<<"code", Unknown>>}
RightTok(k) == IF store[k].kind = "code" THEN PreTok(k, IF store[k].pin THEN "right" ELSE None, "c1", <<>>)
               ELSE CodeTok(k, store[k].client, store[k].redirect, store[k].ch)
RightToks == {RightTok(k) : k \in Of("code") \cup Of("acode")}

(************************* offers (C17) ************************************)
IdLists == {<<>>, <<"A">>, <<"A", "B">>, <<"B", "A">>, <<"A", "X">>, <<"X">>, <<"M">>, <<"Z">>, <<"C", "M", "A">>}
GrantLists == {<<"absent">>, <<>>, <<"pre">>, <<"code">>, <<"pre", "code">>, <<"code", "pre">>}
OfferMoves == IF now = 0 THEN {Offer(ids, g, "alice", tx, "ref") : ids \in {<<"A">>, <<"B", "A">>}, g \in {<<"pre">>, <<"code">>, <<"code", "pre">>, <<"absent">>}, tx \in BOOLEAN}
                              \cup {Offer(<<"A">>, <<"pre">>, "bob", FALSE, "val")} \cup {Fetch("i1", m) : m \in Nums("ref")} \cup {Fetch("i2", m) : m \in Nums("ref")}
              ELSE {}
OfferProbes == (IF hist = <<>> THEN {[Offer(ids, g, s, tx, send) EXCEPT !.issuer = i] : ids \in IdLists, g \in GrantLists, s \in {None, "alice", "bob", "nobody"}, tx \in BOOLEAN,
                                                                                      send \in {"val", "ref"}, i \in {"i1", "i2", "ix"}} ELSE {})
               \cup {Fetch(i, m) : i \in {"i1", "i2", "ix"}, m \in Nums("ref") \cup {Unknown}}

(************************* tokens (C12) ************************************)
Offers3 == {Offer(<<"A">>, <<"pre">>, "alice", FALSE, "val"), Offer(<<"A">>, <<"pre">>, "alice", TRUE, "val"), Offer(<<"A">>, <<"pre", "code">>, "bob", TRUE, "ref"), Offer(<<"A">>, <<"code">>, "alice", FALSE, "val")}
TokenMoves == (IF Len(hist) < 2 THEN Offers3 \cup {Direct(Base), Direct([Base EXCEPT !.redirect = "r1b", !.ch = "v2"]), Direct([Base EXCEPT !.client = "c2", !.redirect = "r2"])} ELSE {})
              \cup {a \in RightToks : Live(a.key)} \cup {PreTok(k, "wrong", "c1", <<>>) : k \in {k \in Of("code") : Live(k)}}
              \cup {CodeTok(k, "c2", "r1", "v1") : k \in {k \in Of("acode") : Live(k)}}
TokenProbes == LET ks == AllKeys \cup Ghosts IN
               {PreTok(k, pin, cl, <<>>) : k \in ks, pin \in {None, "right", "wrong", "empty"}, cl \in {None, "c1", "c2", "cX", "empty"}}
               \cup {CodeTok(k, cl, r, v) : k \in ks, cl \in {None, "c1", "c2", "cX"}, r \in {None, "r1", "r1b", "r2"}, v \in {None, "v1", "v2", "challenge", "empty"}}
               \cup {[a EXCEPT !.issuer = "ix"] : a \in RightToks}

(************************* single use (C11) ********************************)
Both == Offer(<<"A", "B">>, <<"pre", "code">>, "alice", FALSE, "ref")
WithState(k) == Direct([Base EXCEPT !.istate = k])
OnceMoves == (IF Nums("code") = {} THEN {Both} ELSE {}) \cup {Fetch("i1", m) : m \in Nums("ref")}
             \cup {a \in RightToks : TRUE} \cup {PreTok(k, "wrong", "c1", <<ById("C", "none")>>) : k \in {k \in Of("code") : Live(k)}}
             \cup (IF Nums("acode") = {} THEN {WithState(k) : k \in Of("code")} \cup {PushReq([Base EXCEPT !.istate = k]) : k \in {k \in Of("code") : Nums("par") = {}}} \cup {ViaPar(m) : m \in Nums("par")} ELSE {})
             \cup {CodeTok(k, "c1", "r1", "v2") : k \in {k \in Of("acode") : Live(k)}}
             \cup (IF Cardinality(Nums("note")) < 2 THEN {Good(k, "id", "a1") : k \in Of("tok")} ELSE {})
             \cup (IF Nums("txn") = {} THEN {Good(k, "id", "a2") : k \in Of("tok")} ELSE {})
             \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn")} \cup {Note(k) : k \in Of("note")} \cup {ReadyOf(x[1], x[2]) : x \in pend}
OnceProbes == LET ks == AllKeys \cup Ghosts IN
              RightToks \cup {Fetch("i1", m) : m \in Nums("ref")} \cup {WithState(k) : k \in ks} \cup {ViaPar(m) : m \in Nums("par") \cup {Unknown}}
              \cup {Note(k) : k \in ks} \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn") \cup {Unknown}}
              \cup {PreTok(k, None, "c1", <<>>) : k \in ks} \cup {CodeTok(k, "c1", "r1", "v1") : k \in ks} \cup {Good(k, "id", "a1") : k \in ks}

(************************* time (C13) **************************************)
Steps == {241, 423}
TimeMoves == (IF now = 0 /\ n = 1 THEN {Offer(<<"A", "B">>, <<"pre">>, "alice", FALSE, "ref"), Offer(<<"A">>, <<"code">>, "alice", FALSE, "val"), Direct(Base), PushReq(Base)} ELSE {})
             \cup {a \in RightToks : Live(a.key)} \cup {WithState(k) : k \in {k \in Of("code") : Live(k) /\ Nums("acode") = {}}} \cup {ViaPar(m) : m \in {m \in Nums("par") : Live(<<"par", m>>)}}
             \cup {Good(k, "id", i) : k \in Of("tok"), i \in IF Cardinality(Nums("note") \cup Nums("txn")) < 2 THEN {"a1", "a2"} ELSE {}}
             \cup {Cred(k, "id", "a1", "all", "none", <<>>) : k \in {k \in Of("tok") : n < 4}}
             \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn")} \cup {ReadyOf(x[1], x[2]) : x \in {x \in pend : Nums("txn") # {}}}
TimeProbes == RightToks \cup {Fetch("i1", m) : m \in Nums("ref")} \cup {WithState(k) : k \in Of("code")} \cup {ViaPar(m) : m \in Nums("par")}
              \cup {Good(k, "id", i) : k \in Of("tok"), i \in {"a1", "a2", "b1"}} \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn")}
              \cup {PushReq([Base EXCEPT !.istate = k]) : k \in Of("code")}

(************************* what is authorized (C14) ************************)
CredMoves == (IF hist = <<>> THEN {Offer(ids, <<"pre">>, s, FALSE, "val") : ids \in {<<"A">>, <<"B">>, <<"A", "B">>, <<"C", "M", "A">>}, s \in {"alice", "bob"}}
                                \cup {Direct([Base EXCEPT !.details = d, !.scope = sc, !.subject = s]) :
                                        d \in {<<>>, <<ById("A", "none")>>, <<ByFormat("B", "none"), ById("M", "none")>>, <<ById("C", "ok")>>}, sc \in {None, "sA", "sB"}, s \in {"alice", "bob"}}
              ELSE {})
             \cup {a \in RightToks : Live(a.key)}
             \cup {PreTok(k, None, "c1", <<ById(c, "none")>>) : k \in {k \in Of("code") : Live(k)}, c \in {"A", "B", "M"}}
             \cup {PreTok(k, None, "c1", <<ById("A", "ok"), ById("C", "none")>>) : k \in {k \in Of("code") : Live(k)}}
             \cup (IF Len(hist) = 3 THEN {Good(k, "id", "a1") : k \in Of("tok")} ELSE {})
Narrows == {<<ById(c, cl)>> : c \in {"A", "B", "C", "M", "X", "Z"}, cl \in {"none", "ok", "bad", "short", "deep"}} \cup {<<ById("A", "none"), ById(c, "none")>> : c \in {"B", "C", "X"}}
           \cup {<<ById(c, "none"), ById("A", "none")>> : c \in {"B", "C", "X"}}
CredProbes == LET ks == Of("tok") \cup Of("note") \cup Of("code") \cup Ghosts IN
              {PreTok(k, None, "c1", nw) : k \in {k \in Of("code") : Live(k)}, nw \in {w \in Narrows : \A i \in 1..Len(w) : w[i].claims \in {"none"} \/ w[i].cfg \in {"A", "B", "C"}}}
              \cup {Good(k, "id", i) : k \in ks, i \in {"a1", "a2", "b1", "b2", "c1", "m1", "A", "zz", "empty"}} \cup {Good(k, "format", c) : k \in ks, c \in {"A", "B", "C", "M", "T", "L", "S", "N"}}
              \cup {[Good(k, "id", i) EXCEPT !.issuer = j] : k \in Of("tok"), i \in {"a1", "b1", "b2"}, j \in {"i2", "ix"}}
              \cup {[Good(k, "format", i) EXCEPT !.issuer = j] : k \in Of("tok"), i \in {"A", "B"}, j \in {"i2", "ix"}}

(************************* proofs (C15) ************************************)
Nonces == {hist[i].n : i \in {i \in 1..Len(hist) : \/ (hist[i].a.op = "token" /\ hist[i].exp.fails = {})
                                                    \/ hist[i].exp.code = "invalid_proof"
                                                    \/ (hist[i].a.op = "deferred" /\ hist[i].exp.fails = {})
                                                    \/ (hist[i].a.op = "credential" /\ hist[i].exp.fails = {} /\ hist[i].exp.res.kind = "vc")}}
ProofMoves == (IF Cardinality(Nums("code")) < 2 /\ n <= 3 THEN {Offer(<<"A", "B">>, <<"pre">>, "alice", FALSE, "val")} ELSE {})
              \cup {a \in RightToks : Live(a.key)}
              \cup {Good(k, "id", "a1") : k \in Of("tok")} \cup {Cred(k, "id", "a1", "all", "one", <<P("h2", NonceOf(k), "none")>>) : k \in Of("tok")}
              \cup {Cred(k, "id", "a1", "all", "none", <<>>) : k \in Of("tok")} \cup {Cred(k, "id", "a1", "all", "one", <<P("h1", NonceOf(k), "sig")>>) : k \in Of("tok")}
              \cup {Good(k, "id", "b1") : k \in Of("tok")}
Flaws == {"none", "sig", "typ", "kid", "jwk", "nononce", "garbage", "alien", "otherkey"}
ProofProbes ==
  UNION {{Cred(k, "id", "a1", "all", "one", <<P(h, m, f)>>) : h \in {"h1", "h2"}, m \in Nonces \cup {Unknown}, f \in Flaws}
         \cup {Cred(k, "id", w, "all", "none", <<>>) : w \in {"a1", "b1"}} \cup {Cred(k, "format", "A", "all", "none", <<>>)} \cup {Cred(k, "id", "a1", "all", "many", <<>>)}
         \cup {Cred(k, "id", "a1", "all", "many", <<P("h1", m, f)>>) : m \in Nonces, f \in {"none", "sig"}}
         \cup {Cred(k, "id", "a1", "all", "many", <<P("h1", NonceOf(k), f), P(h, m, g)>>) : m \in Nonces, f, g \in {"none", "sig", "typ"}, h \in {"h1", "h2"}} : k \in Of("tok")}

(************************* authorization requests (C16) ********************)
Alt == [issuer |-> {"i2", "ix"}, client |-> {"c2", "cg", "cr", "cs", "cn", "cu", "cX"}, redirect |-> {None, "r1b", "r2"}, ch |-> {"v2", "short", "long"}, subject |-> {None, "bob", "nobody"},
        istate |-> AllKeys \cup Ghosts, scope |-> {"sA", "sB", "sX"}, state |-> {None},
        details |-> {<<>>, <<ById("X", "none")>>, <<ById("Z", "none")>>, <<ById("X", "ok")>>, <<ByFormat("A", "none")>>, <<ByFormat("T", "none")>>, <<ById("B", "none"), ById("A", "none")>>,
                     <<ById("A", "ok")>>, <<ById("A", "bad")>>, <<ById("A", "deep")>>, <<ById("A", "short")>>, <<ByFormat("L", "none")>>, <<ByFormat("S", "none")>>, <<ByFormat("A", "bad")>>, <<ByFormat("C", "ok"), ById("M", "none")>>, <<ById("A", "none"), ById("X", "none")>>,
                     <<ById("A", "none"), ById("C", "bad")>>, <<ById("C", "bad"), ById("A", "none")>>}]
Single == {Base} \cup UNION {{[Base EXCEPT ![f] = v] : v \in Alt[f]} : f \in DOMAIN Alt}
Double == UNION {UNION {{[[Base EXCEPT ![f] = v] EXCEPT ![g] = w] : v \in Alt[f], w \in Alt[g]} : g \in DOMAIN Alt \ {f}} : f \in DOMAIN Alt}
Requests == IF Len(hist) <= 1 THEN Single \cup Double ELSE Single
AuthMoves == (IF hist = <<>> THEN {Offer(<<"A">>, <<"code">>, "alice", FALSE, "val"), Offer(<<"A">>, <<"code">>, None, FALSE, "val")} \cup {PushReq(r) : r \in {Base, [Base EXCEPT !.subject = "bob"], [Base EXCEPT !.scope = "sB"]}} ELSE {})
             \cup {Direct(r) : r \in {[Base EXCEPT !.scope = "sB"], [Base EXCEPT !.details = <<>>, !.scope = "sA"], [Base EXCEPT !.details = <<ByFormat("C", "ok"), ById("M", "none")>>]}} \cup {ViaPar(m) : m \in {m \in Nums("par") : Live(<<"par", m>>)}}
             \cup {a \in RightToks : Live(a.key)}
AuthProbes == {Direct(r) : r \in Requests} \cup {PushReq(r) : r \in Requests} \cup {ViaPar(m) : m \in Nums("par") \cup {Unknown}} \cup RightToks

(************************* deferred credentials (C18) **********************)
DeferMoves == (IF Nums("code") = {} THEN {Offer(<<"A", "B">>, <<"pre">>, "alice", FALSE, "val")} ELSE {}) \cup {a \in RightToks : Live(a.key)}
              \cup (IF Cardinality(Nums("txn")) < 2 THEN {Good(k, "id", i) : k \in Of("tok"), i \in {"a2", "b1"}} \cup {Good(k, "format", "B") : k \in Of("tok")} ELSE {})
              \cup (IF Nums("note") = {} THEN {Good(k, "id", "a1") : k \in Of("tok")} ELSE {}) \cup (IF Nums("txn") # {} /\ n < 6 THEN {Cred(k, "id", "a1", "all", "none", <<>>) : k \in Of("tok")} ELSE {})
              \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn")} \cup {ReadyOf(x[1], x[2]) : x \in {x \in pend : Nums("tok") # {}}}
DeferProbes == {Later(k, m) : k \in AllKeys \cup Ghosts, m \in Nums("txn") \cup {Unknown}} \cup {[Later(k, m) EXCEPT !.issuer = i] : k \in Of("tok"), m \in Nums("txn"), i \in {"ix", "i2"}}
               \cup {Good(k, "id", i) : k \in Of("tok"), i \in {"a1", "a2", "b1"}}

(************************* contents (C19) **********************************)
ContentMoves == (IF hist = <<>> THEN {Offer(<<"C", "M", "A", "B">>, <<"pre">>, "alice", FALSE, "val"), Offer(<<"B", "A">>, <<"pre">>, "bob", FALSE, "val"),
                                      Direct([Base EXCEPT !.details = <<ById("A", "ok"), ByFormat("C", "none")>>, !.scope = "sB"]), Direct([Base EXCEPT !.subject = "bob", !.details = <<>>, !.scope = "sA"])} ELSE {})
                \cup {a \in RightToks : Live(a.key)} \cup (IF Len(hist) < 4 THEN {Good(k, "id", "a2") : k \in Of("tok")} \cup {Cred(k, "format", "A", "some", "one", <<P("h2", NonceOf(k), "none")>>) : k \in {k \in Of("tok") : store[k].subject = "bob"}} ELSE {})
                \cup {ReadyOf(x[1], x[2]) : x \in {x \in pend : Nums("txn") # {}}}
ContentProbes == {Cred(k, "id", i, "all", "one", <<P(h, NonceOf(k), "none")>>) : k \in Of("tok"), i \in {"a1", "a2", "b1", "b2", "c1", "m1"}, h \in {"h1", "h2"}}
                 \cup {Cred(k, "format", c, cl, form, <<P(h, NonceOf(k), "none")>>) : k \in Of("tok"), c \in {"A", "B", "C", "M"}, cl \in {"all", "some"}, h \in {"h1", "h2"}, form \in {"one", "many"}}
                 \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn")}

(************************* metadata, registration, notification (C20) ******)
MiscMoves == (IF Nums("code") = {} THEN {Offer(<<"A">>, <<"pre">>, "alice", FALSE, "ref")} ELSE {}) \cup {a \in RightToks : Live(a.key)}
             \cup (IF Cardinality(Nums("note")) < 2 THEN {Good(k, "id", "a1") : k \in Of("tok")} ELSE {}) \cup {Note(k) : k \in Of("note")}
MiscProbes == LET ks == AllKeys \cup Ghosts IN
              {Note(k) : k \in ks} \cup {[op |-> "metadata", issuer |-> i, server |-> None] : i \in {"i1", "i2", "ix"}}
              \cup {[op |-> "oauth_server", issuer |-> i, server |-> s] : i \in {"i1", "i2", "ix"}, s \in {None, "as1", "asX"}}
              \cup {[op |-> "register", key |-> k, client |-> c] : k \in ks, c \in {"min", "full", "taken"}}

Moves == CASE Focus = "offer" -> OfferMoves [] Focus = "token" -> TokenMoves [] Focus = "once" -> OnceMoves [] Focus = "time" -> TimeMoves [] Focus = "cred" -> CredMoves
           [] Focus = "proof" -> ProofMoves [] Focus = "auth" -> AuthMoves [] Focus = "defer" -> DeferMoves [] Focus = "content" -> ContentMoves [] Focus = "misc" -> MiscMoves
Probes == CASE Focus = "offer" -> OfferProbes [] Focus = "token" -> TokenProbes [] Focus = "once" -> OnceProbes [] Focus = "time" -> TimeProbes [] Focus = "cred" -> CredProbes
           [] Focus = "proof" -> ProofProbes [] Focus = "auth" -> AuthProbes [] Focus = "defer" -> DeferProbes [] Focus = "content" -> ContentProbes [] Focus = "misc" -> MiscProbes
Ticks == CASE Focus \in {"time"} -> IF now < 1100 /\ n > 1 THEN Steps ELSE {} [] Focus \in {"offer"} -> IF now = 0 /\ n > 1 THEN {310} ELSE {}
           [] Focus = "defer" -> IF now = 0 /\ Nums("txn") # {} THEN {650} ELSE {} [] OTHER -> {}

\* calls that show what is left after any other call
After == RightToks \cup {Fetch("i1", m) : m \in Nums("ref")} \cup {ViaPar(m) : m \in Nums("par")} \cup {WithState(k) : k \in Of("code")}
         \cup {Good(k, "id", i) : k \in Of("tok"), i \in {"a1", "b1"}} \cup {Good(k, "format", c) : k \in Of("tok"), c \in {"A", "M"}}
         \cup {Later(k, m) : k \in Of("tok"), m \in Nums("txn")} \cup {Note(k) : k \in Of("note")}
Followed == IF Focus = "auth" THEN {a \in AuthProbes : a.op \notin {"authorize", "par"} \/ a.req \in Single} ELSE Probes

InitPend == IF Focus \in {"once", "time", "defer", "content"} THEN {<<"alice", "a2">>} \cup (IF Focus = "defer" THEN {<<"alice", "b1">>} ELSE {}) ELSE {}
\* the configuration at the start: the last one, unless it was changed
Was == {i \in 1..Len(hist) : hist[i].a.op = "server"}
Start == IF Was = {} THEN cfg ELSE hist[CHOOSE i \in Was : \A j \in Was : i <= j].a.was
Init == /\ cfg \in Cfgs /\ now = 0 /\ n = 1 /\ store = [k \in {} |-> {}] /\ hist = <<>>
        /\ pend = InitPend /\ last = <<>>
Follow == Len(hist) < Echo /\ \E a \in Followed : Call(a) /\ last' = <<a>>
Move == /\ Len(hist) < Depth /\ UNCHANGED last
        /\ \/ \E a \in Moves : Call(a)
           \/ \E d \in Ticks : Tick(d)
           \/ Focus = "token" /\ Len(hist) = 1 /\ \E c \in {[cfg EXCEPT !.pre = FALSE], [cfg EXCEPT !.code = FALSE]} : Reconfigure(c)
Next == last = <<>> /\ (Move \/ Follow)
Spec == Init /\ [][Next]_<<vars, last>>
View == <<cfg, now, n, store, pend, last, Focus = "auth" /\ Len(hist) <= 1>>

\* keep only the probes whose outcome is pinned, refusals included
Tried == {[a |-> a, n |-> n, at |-> now, exp |-> Expect(Outcome(a))] : a \in IF last = <<>> THEN Probes ELSE After \cup {last[1]}}
Emit == PrintT(ToJson([start |-> Start, hist |-> hist, tries |-> {t \in Tried : ~t.exp.open}, pend |-> InitPend]))
=============================================================================
