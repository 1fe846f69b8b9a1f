------------------------------- MODULE Claims -------------------------------
(***************************************************************************)
(* Requested claims against the claims a credential configuration lists,    *)
(* and finding a configuration by format (crates/openid/src/issuer.rs).     *)
(* A claim is an entry, which may be mandatory, or a set of claims.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, Deep

Entry(m) == [t |-> "entry", m |-> m]
Set(f) == [t |-> "set", f |-> f]
Absent == [t |-> "absent"]
\* maps from some of the keys K to values V
MapsOf(K, V) == {[k \in {k \in K : g[k] # Absent} |-> g[k]] : g \in [K -> V \cup {Absent}]}
NonEmpty(S) == {f \in S : DOMAIN f # {}}

\* what a configuration lists
Leaves == {Entry("none"), Entry("yes"), Entry("no")}
Inner == NonEmpty(MapsOf({"c", "d"}, {Entry("none"), Entry("yes")}))
Deeper == {Set([c |-> Set([e |-> x])]) : x \in {Entry("none"), Entry("yes")}} \cup {Set([c |-> Set([e |-> Entry("yes"), g |-> Entry("no")]), d |-> Entry("no")])}
Listed == MapsOf({"a", "b"}, Leaves \cup {Set(f) : f \in Inner}) \cup MapsOf({"a", "b"}, Deeper \cup {Entry("yes")})
\* what is asked for; z and y are known nowhere
AskInner == NonEmpty(MapsOf({"c", "d", "y"}, {Entry("none")}))
AskDeeper == {Set([c |-> Set([e |-> Entry("none")])]), Set([c |-> Set([y |-> Entry("none")])]), Set([c |-> Set([e |-> Entry("none"), g |-> Entry("none")]), d |-> Entry("none")]),
              Set([d |-> Entry("none")]), Set([c |-> Set([e |-> Set([c |-> Entry("none")])])])}
Asked == LET one == {Entry("none")} \cup {Set(f) : f \in AskInner} \cup AskDeeper
             ab == MapsOf({"a", "b"}, one)
         IN ab \cup {f @@ ("z" :> Entry("none")) : f \in (IF Deep THEN ab ELSE MapsOf({"a", "b"}, {Entry("none")}))}

RECURSIVE Known(_, _)
Known(q, s) == \A k \in DOMAIN q : /\ k \in DOMAIN s
                                   /\ q[k].t = s[k].t
                                   /\ q[k].t = "set" => Known(q[k].f, s[k].f)
RECURSIVE Complete(_, _)
Nothing == [k \in {} |-> Absent]
Complete(q, s) == \A k \in DOMAIN s :
  IF s[k].t = "entry" THEN s[k].m = "yes" => k \in DOMAIN q
  ELSE Complete(IF k \in DOMAIN q /\ q[k].t = "set" THEN q[k].f ELSE Nothing, s[k].f)
Granted(q, s) == Known(q, s) /\ Complete(q, s)

\* formats: kind and type
Types == {<<"jwt_vc_json", "A">>, <<"jwt_vc_json", "B">>, <<"jwt_vc_json-ld", "A">>, <<"ldp_vc", "A">>, <<"mso_mdoc", "A">>, <<"mso_mdoc", "B">>, <<"vc+sd-jwt", "A">>}
Finds(cs, t) == {i \in 1..Len(cs) : cs[i] = t}

VARIABLES case
vars == case
Init == CASE Part = "claims" -> case \in {[k |-> "listed", s |-> s] : s \in Listed}
          [] Part = "find" -> case \in {[k |-> "find", cs |-> cs, t |-> t] : cs \in UNION {[1..n -> Types] : n \in 0..(IF Deep THEN 3 ELSE 2)}, t \in Types}
Next == case.k = "listed" /\ \E q \in Asked : case' = [k |-> "asked", s |-> case.s, q |-> q]
Spec == Init /\ [][Next]_vars

\* asking for everything listed is always granted
All(s) == [k \in DOMAIN s |-> s[k]]
AskAll == case.k = "listed" => Granted(All(case.s), case.s)
MandatoryNeeded == case.k = "asked" => (Granted(case.q, case.s) => \A k \in DOMAIN case.s : case.s[k].t = "entry" /\ case.s[k].m = "yes" => k \in DOMAIN case.q)
UnknownRefused == case.k = "asked" => ("z" \in DOMAIN case.q => ~Granted(case.q, case.s))
Emit == CASE case.k = "asked" -> PrintT(ToJson([s |-> case.s, q |-> case.q, ok |-> Granted(case.q, case.s)]))
          [] case.k = "find" -> PrintT(ToJson([cs |-> case.cs, t |-> case.t, found |-> Finds(case.cs, case.t)]))
          [] OTHER -> TRUE
=============================================================================
