------------------------------ MODULE HolderMC ------------------------------
(* Explores Holder.tla: which calls move the wallet (Moves) and which are     *)
(* tried in every reachable state (Probes).  In the first states (histories   *)
(* shorter than Echo) every call tried is also followed up (After).           *)
EXTENDS Holder, Json
CONSTANTS Focus, Depth, Echo
VARIABLE last

O(i, c, g) == [op |-> "offer", issuer |-> i, cfgs |-> c, grants |-> g]
Ac(k, acc) == [op |-> "accept", flow |-> k, acc |-> acc]
P(k, p) == [op |-> "pin", flow |-> k, pin |-> p]
T(k, e) == [op |-> "token", flow |-> k, env |-> e]
Au(k, r, e) == [op |-> "authorize", flow |-> k, redirect |-> r, env |-> e]
St(i, d, s, r, e) == [op |-> "start", issuer |-> i, details |-> d, scope |-> s, redirect |-> r, env |-> e]
Cr(k, ids, fmt, e) == [op |-> "credentials", flow |-> k, ids |-> ids, fmt |-> fmt, env |-> e]
De(k, t, e) == [op |-> "deferred", flow |-> k, tx |-> t, env |-> e]
Sa(k, e) == [op |-> "save", flow |-> k, env |-> e]
Ca(k) == [op |-> "cancel", flow |-> k]
D(c, cl) == [cfg |-> c, claims |-> cl]
Nc == <<>>
Grants == {None, "pre", "tx", "code", "pre+code", "tx+code"}
Ks == DOMAIN flows
Everyone == Ks \cup {1, Unknown}

(************************* order: every step in every state ****************)
OrderMoves ==
  (IF n = 1 THEN {O(i, <<"A", "B">>, g) : i \in Issuers, g \in Grants} \cup {St("i1", L(<<D("A", Nc)>>), None, "yes", "ok")} ELSE {})
  \cup (IF n = 2 /\ Depth > 6 THEN {O("i1", <<"B">>, "tx")} ELSE {})
  \cup UNION {{Ac(k, Whole), Ac(k, L(<<D("B", Nc)>>)), P(k, "1234"), T(k, "ok"), Au(k, "no", "ok"), Cr(k, Whole, None, "ok"), Sa(k, "ok"), Ca(k)} \cup {De(k, t, e) : t \in flows[k].later, e \in {"ok"}} : k \in Ks}
OrderProbes ==
  UNION {{Ac(k, Whole), Ac(k, L(<<D("A", Nc)>>)), P(k, "1234"), P(k, "9"), P(k, " 12 "), P(k, "0042"), P(k, "a b&c=%20"), T(k, "ok"), T(k, "fail"), Au(k, "no", "ok"), Au(k, "yes", "fail"), Cr(k, Whole, None, "ok"), Cr(k, L(<<"a1">>), None, "ok"),
          De(k, Nm("a2", 1), "ok"), Sa(k, "ok"), Ca(k)} : k \in Everyone}
  \cup {O(i, c, g) : i \in Issuers \cup {"iX"}, c \in {<<>>, <<"A">>, <<"Z">>, <<"A", "Z">>, <<"C", "A">>}, g \in {None, "tx"}}

(************************* choose: what is accepted, asked for and kept *****)
Picks == {Whole, L(<<D("A", Nc)>>), L(<<D("B", Nc)>>), L(<<D("B", <<"given">>), D("A", <<"family", "given">>)>>)}
ChooseMoves ==
  (IF Ks = {} /\ n = 1 THEN {O("i1", <<"A", "B">>, "pre"), O("i1", <<"A", "B">>, "code")} ELSE {})
  \cup UNION {{Ac(k, c) : c \in Picks} \cup (IF flows[k].grants = "pre" THEN {T(k, "ok")} ELSE {Au(k, "yes", "ok")})
              \cup {Cr(k, Whole, None, e) : e \in {"ok", "quiet"}} \cup {Cr(k, L(<<"a1", "b1">>), None, "two")} \cup {De(k, t, e) : t \in flows[k].later, e \in {"ok", "again"}} \cup {Sa(k, "ok"), Ca(k)} : k \in Ks}
ChooseProbes ==
  UNION {{Ac(k, c) : c \in Picks \cup {L(<<>>), L(<<D("C", Nc)>>), L(<<D("Z", Nc)>>), L(<<D("A", Nc), D("C", Nc)>>), L(<<D("A", <<"given">>)>>)}} : k \in Ks}
  \cup UNION {IF flows[k].st # "token" THEN {} ELSE {Cr(k, ids, None, e) : ids \in {Whole, L(<<>>), L(<<"a1">>), L(<<"a2">>), L(<<"a1", "b1">>), L(<<"c1">>), L(<<"c1", "b1">>), L(<<"zz">>), L(<<"b1", "b1">>), L(<<"b", "a">>), L(<<"b11", "A", "a1 ">>)}, e \in {"ok", "quiet", "two", "fail", "bad", "onebad"}} : k \in Ks}
  \cup UNION {{De(k, t, e) : t \in flows[k].later, e \in {"ok", "quiet", "two", "again", "fail", "bad", "onebad"}} \cup {De(k, Nm("a1", 9), "ok")} : k \in Ks}
  \cup {T(k, "ok") : k \in Ks} \cup {Au(k, r, "ok") : k \in Ks, r \in {"yes", "no"}} \cup UNION {{Sa(k, "ok"), Sa(k, "full"), Ca(k)} : k \in Ks}

(************************* wallet: starting on one's own, by details or scope *)
WalletMoves ==
  (IF n = 1 THEN {St("i1", d, None, r, "ok") : d \in {L(<<D("A", Nc)>>), L(<<D("B", <<"given">>), D("C", Nc)>>)}, r \in {"yes", "no"}} \cup {St("i1", Whole, s, "no", "ok") : s \in {"sa", "sb", "sz"}} ELSE {})
  \cup UNION {{Cr(k, Whole, IF flows[k].scope = None THEN None ELSE c, e) : c \in Supported, e \in {"ok", "two"}} \cup {De(k, t, "ok") : t \in flows[k].later} \cup {Sa(k, "ok")} : k \in Ks}
WalletProbes ==
  (IF n = 1 THEN {St(i, d, s, r, e) : i \in Issuers \cup {"iX"}, d \in {Whole, L(<<D("A", Nc)>>), L(<<D("C", <<"family">>), D("A", Nc)>>)}, s \in {None, "sa"}, r \in {"yes", "no"}, e \in {"ok", "fail"}} ELSE {})
  \cup UNION {{Cr(k, ids, f, e) : ids \in {Whole, L(<<"a1">>)}, f \in Supported \cup {None, "X"}, e \in {"ok", "quiet", "two", "fail", "bad", "onebad"}} : k \in Ks}
  \cup UNION {{De(k, t, e) : t \in flows[k].later, e \in {"ok", "two", "bad", "again"}} \cup {Sa(k, "ok"), Sa(k, "full"), Ca(k)} : k \in Ks}

(************************* both: two flows at once *************************)
BothMoves ==
  (IF Cardinality(Ks) < 2 /\ n <= 2 THEN {O("i1", <<"A">>, "pre"), O("i2", <<"B", "A">>, "tx")} ELSE {})
  \cup UNION {{Ac(k, Whole), Ac(k, L(<<D("A", Nc)>>)), P(k, ToString(k)), T(k, "ok"), Cr(k, Whole, None, "ok"), Sa(k, "ok")} \cup {De(k, t, "ok") : t \in flows[k].later} : k \in Ks}
BothProbes ==
  UNION {{Ac(k, Whole), P(k, "1"), T(k, "ok"), Cr(k, Whole, None, "ok"), Sa(k, "ok"), Ca(k)} \cup UNION {{De(k, t, "ok") : t \in flows[j].later} : j \in Ks} : k \in Ks}

Moves == CASE Focus = "order" -> OrderMoves [] Focus = "choose" -> ChooseMoves [] Focus = "wallet" -> WalletMoves [] Focus = "both" -> BothMoves
Probes == CASE Focus = "order" -> OrderProbes [] Focus = "choose" -> ChooseProbes [] Focus = "wallet" -> WalletProbes [] Focus = "both" -> BothProbes

Init == n = 1 /\ flows = <<>> /\ cnt = [id \in AllIds |-> 0] /\ kept = {} /\ hist = <<>> /\ last = <<>>
\* histories are extended by calls that do something
Move == Len(hist) < Depth /\ UNCHANGED last /\ \E a \in Moves : Outcome(a).fails = {} /\ Call(a)
Follow == Len(hist) < Echo /\ \E a \in Probes : Call(a) /\ last' = <<a>>
Next == last = <<>> /\ (Move \/ Follow)
Spec == Init /\ [][Next]_<<vars, last>>
View == <<flows, cnt, kept, last>>
\* calls that show what is left after any other call
After == UNION {{Ac(k, Whole), P(k, "1234"), T(k, "ok"), Au(k, "no", "ok"), Cr(k, Whole, None, "ok"), Sa(k, "ok"), Ca(k)} \cup {De(k, t, "ok") : t \in flows[k].later} : k \in Ks}
Tried == {[a |-> a, n |-> n, exp |-> Expect(Outcome(a))] : a \in IF last = <<>> THEN Probes ELSE After \cup {last[1]}}
Emit == PrintT(ToJson([hist |-> hist, tries |-> {t \in Tried : ~t.exp.open}]))
=============================================================================
