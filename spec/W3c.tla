--------------------------------- MODULE W3c --------------------------------
(***************************************************************************)
(* W3C credentials and presentations (crates/w3c-vc): their shapes, what a  *)
(* JWT made of one must claim, and which tokens verification accepts.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, Deep

None == "none"
(************************* shapes ******************************************)
Subjects == {<<>>, <<"id">>, <<"bare">>, <<"id", "id2">>, <<"bare", "id">>, <<"id", "bare", "id2">>}
\* "one": not in a list
Core == {[id |-> i, types |-> t, issuer |-> s, subjects |-> u, many |-> m, from |-> f, until |-> e, ctx |-> c] :
           i \in BOOLEAN, t \in {"one", "two", "three"}, s \in {"text", "object", "objectx"}, u \in Subjects, m \in BOOLEAN, f \in BOOLEAN, e \in {None, "past", "future", "fraction"}, c \in {"text", "object"}}
CoreOk(v) == v.many \/ Len(v.subjects) = 1
Lists == {None, "one", "many"}
Optional == {[name |-> a, description |-> b, status |-> c, schema |-> d, related |-> e, refresh |-> f, terms |-> g, evidence |-> h, proof |-> p] :
               a \in {None, "text", "lang", "dir", "many"}, b \in {None, "lang"}, c \in Lists \cup {"message"}, d \in Lists, e \in Lists \cup {"digests"}, f \in {None, "one"}, g \in Lists, h \in Lists, p \in Lists}
\* not all combinations at once: those where at most three members are present, or all
Present(o) == Cardinality({m \in DOMAIN o : o[m] # None})
Plain == [id |-> TRUE, types |-> "two", issuer |-> "text", subjects |-> <<"id">>, many |-> FALSE, from |-> TRUE, until |-> None, ctx |-> "text"]
Vps == {[id |-> i, types |-> t, creds |-> c, holder |-> h, proof |-> p, aud |-> a, nonce |-> n] :
          i \in BOOLEAN, t \in {"one", "two"}, c \in {None, "0", "jwt", "object", "both"}, h \in BOOLEAN, p \in Lists, a \in {"https://v.example/post", ""}, n \in {"n-1", "", "odd"}}

\* the claims of a credential's JWT
SubOf(v) == IF v.subjects = <<>> \/ v.subjects[1] = "bare" THEN "" ELSE "did:ex:" \o v.subjects[1]
Claims(v) == [iss |-> "issuer", sub |-> SubOf(v), jti |-> v.id, exp |-> v.until]

(************************* tokens ******************************************)
\* made from a document of a kind, by a key; then perhaps spoilt
Flaws == {None, "signature", "claims", "header", "ghost", "object", "empty", "twoparts", "garbage", "unsigned", "fourparts"}
Tokens == {[kind |-> k, as |-> a, flaw |-> f, by |-> b] : k, a \in {"vc", "vp"}, f \in Flaws, b \in {"i1", "h1"}}
Accepts(t) == t.kind = t.as /\ t.flaw = None

(************************* language-tagged text ****************************)
Tags == {"en", "fr", None}
LangStarts == {[s |-> "text", x |-> x] : x \in {"A", ""}} \cup {[s |-> "object", x |-> x, l |-> l, d |-> d] : x \in {"A"}, l \in Tags, d \in {None, "ltr", "rtl"}}
LangAdds == {[x |-> x, l |-> l, d |-> d] : x \in {"B", "C"}, l \in Tags, d \in {None, "rtl"}}
LangInit(s) == IF s.s = "text" THEN [form |-> "text", xs |-> <<[x |-> s.x, l |-> None, d |-> None]>>] ELSE [form |-> "one", xs |-> <<[x |-> s.x, l |-> s.l, d |-> s.d]>>]
LangAdd(v, a) == [form |-> "many", xs |-> Append(v.xs, a)]
\* the text in a language: the first one so tagged, and untagged plain text in any
LangOf(v, l) == IF v.form = "text" THEN [found |-> TRUE, x |-> v.xs[1].x]
                ELSE LET m == SelectSeq(v.xs, LAMBDA e : e.l = l) IN IF m = <<>> THEN [found |-> FALSE, x |-> ""] ELSE [found |-> TRUE, x |-> m[1].x]

(************************* builders ****************************************)
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
VcBuilds == {[ctx |-> c, types |-> t, issuer |-> i, subjects |-> s, id |-> d, proofs |-> p, extra |-> e] :
               c, t \in 0..2, i \in {None, "empty", "text"}, s \in Upto({"id", "bare"}, IF Deep THEN 3 ELSE 2), d \in BOOLEAN, p \in 0..3, e \in BOOLEAN}
VcBuilt(b) == b.ctx > 0 /\ b.types > 0 /\ b.issuer = "text" /\ b.subjects # <<>>
VpBuilds == {[ctx |-> c, types |-> t, creds |-> s, holder |-> h] : c, t \in 0..2, s \in Upto({"jwt", "object"}, 3), h \in BOOLEAN}
VpBuilt(b) == b.ctx > 0 /\ b.types > 0
(************************* presentations as text ***************************)
Texts == {[doc |-> d, form |-> f] : d \in {v \in Vps : v.aud # "" /\ v.nonce = "n-1"}, f \in {"json", "base64"}}
Junk == {"empty", "multibyte", "brace", "text", "base64text", "padded"}

VARIABLES case
vars == case
LangMax == IF Deep THEN 3 ELSE 2
Init == CASE Part = "core" -> case \in {v \in Core : CoreOk(v)}
          [] Part = "optional" -> case \in {o \in Optional : Present(o) <= (IF Deep THEN 4 ELSE 2) \/ Present(o) = 9}
          [] Part = "vp" -> case \in Vps
          [] Part = "token" -> case \in Tokens
          [] Part = "vcbuild" -> case \in VcBuilds
          [] Part = "vpbuild" -> case \in VpBuilds
          [] Part = "text" -> case \in Texts \cup {[doc |-> None, form |-> j] : j \in Junk}
          [] Part = "lang" -> case \in {[start |-> s, adds |-> <<>>, v |-> LangInit(s)] : s \in LangStarts}
Next == /\ Part = "lang" /\ Len(case.adds) < LangMax
        /\ \E a \in LangAdds : case' = [case EXCEPT !.adds = Append(@, a), !.v = LangAdd(@, a)]
Spec == Init /\ [][Next]_vars

\* what was added first is found first; nothing is lost
KeepsOrder == Part = "lang" => /\ Len(case.v.xs) = 1 + Len(case.adds)
                               /\ \A i \in 1..Len(case.adds) : case.v.xs[i + 1] = case.adds[i]
OneWayOnly == Part = "token" => (Accepts(case) => case.flaw = None /\ case.kind = case.as)
Emit == PrintT(ToJson(CASE Part = "core" -> [doc |-> case, claims |-> Claims(case)]
                        [] Part = "optional" -> [doc |-> case, claims |-> Claims(Plain)]
                        [] Part = "vp" -> [doc |-> case]
                        [] Part = "token" -> [t |-> case, ok |-> Accepts(case)]
                        [] Part = "vcbuild" -> [b |-> case, ok |-> VcBuilt(case)]
                        [] Part = "vpbuild" -> [b |-> case, ok |-> VpBuilt(case)]
                        [] Part = "text" -> [x |-> case, ok |-> case.form \in {"json", "base64"}]
                        [] Part = "lang" -> [case |-> case, in |-> [l \in {"en", "fr", "de"} |-> LangOf(case.v, l)]]))
=============================================================================
