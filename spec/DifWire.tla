------------------------------ MODULE DifWire ------------------------------
(***************************************************************************)
(* Wire form of Presentation Exchange documents (crates/dif-exch/src/       *)
(* lib.rs).  A document is a record of members; an optional member that is  *)
(* absent holds None.  Encode leaves absent members out, Decode reads a     *)
(* JSON object back or refuses it.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Big
VARIABLE c

None == [t |-> "none"]
Tx(s) == [t |-> "text", s |-> s]
Bo(b) == [t |-> "bool", b |-> b]
Ls(xs) == [t |-> "list", xs |-> xs]
Mp(k, x) == [t |-> "map", k |-> k, x |-> x]      \* a map of one entry
MEmpty == [t |-> "map", k |-> "", x |-> None]    \* the empty map

Ob(ms) == [t |-> "doc", ms |-> ms]

\* the members of each kind of document: name -> [required, kind]
Schema == [
  definition |-> [id |-> <<TRUE, "text">>, input_descriptors |-> <<TRUE, "list of descriptor">>, name |-> <<FALSE, "text">>, purpose |-> <<FALSE, "text">>, format |-> <<FALSE, "map of format">>],
  descriptor |-> [id |-> <<TRUE, "text">>, constraints |-> <<TRUE, "constraints">>, name |-> <<FALSE, "text">>, purpose |-> <<FALSE, "text">>, format |-> <<FALSE, "map of format">>],
  format |-> [alg |-> <<FALSE, "list of text">>, proof_type |-> <<FALSE, "list of text">>],
  constraints |-> [fields |-> <<FALSE, "list of field">>, limit_disclosure |-> <<FALSE, "text">>],
  field |-> [id |-> <<FALSE, "text">>, path |-> <<TRUE, "list of text">>, filter |-> <<FALSE, "filter">>, predicate |-> <<FALSE, "text">>, purpose |-> <<FALSE, "text">>, name |-> <<FALSE, "text">>,
             optional |-> <<FALSE, "bool">>, intent_to_retain |-> <<FALSE, "bool">>],
  filter |-> [type |-> <<TRUE, "text">>, const |-> <<FALSE, "text">>, pattern |-> <<FALSE, "text">>, format |-> <<FALSE, "text">>],
  submission |-> [id |-> <<TRUE, "text">>, definition_id |-> <<TRUE, "text">>, descriptor_map |-> <<TRUE, "list of mapping">>],
  mapping |-> [id |-> <<TRUE, "text">>, format |-> <<TRUE, "text">>, path |-> <<TRUE, "text">>, path_nested |-> <<TRUE, "nested">>],
  nested |-> [format |-> <<TRUE, "text">>, path |-> <<TRUE, "text">>]]
ElemKind == [x \in {"list of descriptor", "list of field", "list of text", "list of mapping", "map of format"} |->
  CASE x = "list of descriptor" -> "descriptor" [] x = "list of field" -> "field" [] x = "list of text" -> "text"
    [] x = "list of mapping" -> "mapping" [] x = "map of format" -> "format"]

(*************************** encode and decode *****************************)
RECURSIVE Encode(_)
Encode(v) ==
  CASE v.t = "doc" -> Ob([m \in {m \in DOMAIN v.ms : v.ms[m] # None} |-> Encode(v.ms[m])])
    [] v.t = "list" -> Ls([i \in 1..Len(v.xs) |-> Encode(v.xs[i])])
    [] v.t = "map" /\ v # MEmpty -> Mp(v.k, Encode(v.x))
    [] OTHER -> v

Refused == [t |-> "refused"]
RECURSIVE Decode(_, _)
Decode(kind, j) ==
  CASE kind = "text" -> IF j.t = "text" THEN j ELSE Refused
    [] kind = "bool" -> IF j.t = "bool" THEN j ELSE Refused
    [] kind \in {"list of descriptor", "list of field", "list of text", "list of mapping"} ->
         IF j.t # "list" THEN Refused
         ELSE LET xs == [i \in 1..Len(j.xs) |-> Decode(ElemKind[kind], j.xs[i])]
              IN IF \E i \in 1..Len(xs) : xs[i] = Refused THEN Refused ELSE Ls(xs)
    [] kind = "map of format" ->
         IF j.t # "map" THEN Refused ELSE IF j = MEmpty THEN j
         ELSE LET x == Decode("format", j.x) IN IF x = Refused THEN Refused ELSE Mp(j.k, x)
    [] OTHER ->
         IF j.t # "doc" THEN Refused
         ELSE LET sc == Schema[kind]
                  has == DOMAIN j.ms
                  got == [m \in DOMAIN sc |-> IF m \in has THEN Decode(sc[m][2], j.ms[m]) ELSE None]
              IN IF \/ \E m \in DOMAIN sc : got[m] = Refused \/ (sc[m][1] /\ m \notin has)
                    \/ kind = "filter" /\ (~(has \subseteq DOMAIN sc) \/ Cardinality(has \cap {"const", "pattern", "format"}) # 1)
                 THEN Refused ELSE Ob(got)

(*************************** documents *************************************)
Opt(s) == {None, Tx(s)}
TextsU == {"", "a", "U+0022U+005CU+000A", "U+00E9", "null"}
Filter(k, s) == Ob([type |-> Tx("string"), const |-> IF k = "const" THEN Tx(s) ELSE None, pattern |-> IF k = "pattern" THEN Tx(s) ELSE None,
                    format |-> IF k = "format" THEN Tx(s) ELSE None])
Filters == {Filter(k, s) : k \in {"const", "pattern", "format"}, s \in {"", "x"} \cup (IF Big THEN TextsU ELSE {})}
Bools == {None, Bo(TRUE), Bo(FALSE)}
FieldsOf(fl, op, ir) ==
  {Ob([id |-> i, path |-> p, filter |-> f, predicate |-> pr, purpose |-> pu, name |-> n, optional |-> o, intent_to_retain |-> r]) :
     i \in Opt("i"), p \in {Ls(<<>>), Ls(<<Tx("$.a")>>), Ls(<<Tx("$.b"), Tx("$.a")>>)}, f \in fl, pr \in Opt("required"), pu \in Opt("why"), n \in Opt("n"), o \in op, r \in ir}
AField == Ob([id |-> None, path |-> Ls(<<Tx("$.a")>>), filter |-> Filter("const", "x"), predicate |-> None, purpose |-> None, name |-> None, optional |-> Bo(TRUE), intent_to_retain |-> None])
BField == [AField EXCEPT !.ms.filter = None, !.ms.optional = None, !.ms.id = Tx("b")]
Formats == {Ob([alg |-> a, proof_type |-> p]) : a \in {None, Ls(<<>>), Ls(<<Tx("ES256K"), Tx("EdDSA")>>)}, p \in {None, Ls(<<>>), Ls(<<Tx("JsonWebSignature2020")>>), Ls(<<Tx("b"), Tx("a"), Tx("b")>>)}}
Maps == {None, MEmpty} \cup {Mp(k, x) : k \in {"jwt_vc", "ldp_vp"}, x \in Formats}
Constr(f, l) == Ob([fields |-> f, limit_disclosure |-> l])
Constrs == {Constr(f, l) : f \in {None, Ls(<<>>), Ls(<<AField>>), Ls(<<BField, AField>>), Ls(<<AField, BField>>)}, l \in Opt("required")}
Descr(i, c0, n, p, f) == Ob([id |-> Tx(i), constraints |-> c0, name |-> n, purpose |-> p, format |-> f])
ADescr == Descr("d1", Constr(Ls(<<AField>>), None), None, None, None)
Descrs == {Descr("d2", k, n, p, f) : k \in Constrs, n \in Opt("n"), p \in Opt("why"), f \in Maps}
Defin(i, ds, n, p, f) == Ob([id |-> Tx(i), input_descriptors |-> Ls(ds), name |-> n, purpose |-> p, format |-> f])
Mapping(i, f, p, nf, np) == Ob([id |-> Tx(i), format |-> Tx(f), path |-> Tx(p), path_nested |-> Ob([format |-> Tx(nf), path |-> Tx(np)])])
Submission(i, d, ms) == Ob([id |-> Tx(i), definition_id |-> Tx(d), descriptor_map |-> Ls(ms)])
AMapping == Mapping("d1", "jwt_vp", "$", "jwt_vc", "$.vc[0]")

Documents(g) ==
  CASE g = "field" -> {Defin("p", <<Descr("d", Constr(Ls(<<f>>), None), None, None, None)>>, None, None, None) : f \in FieldsOf(Filters \cup {None}, Bools, Bools)}
    [] g = "descriptor" -> {Defin("p", <<d>>, None, None, None) : d \in Descrs}
    [] g = "descriptors" -> {Defin("p", ds, None, None, None) : ds \in {<<>>, <<ADescr, ADescr>>} \cup {[k \in 1..n |-> Descr(ToString(n - k), Constr(Ls([i \in 1..k |-> BField]), None), Tx(ToString(k)), None, None)] : n \in {5, 12}} \cup (IF Big THEN {<<d, ADescr>> : d \in Descrs} ELSE {<<CHOOSE d \in Descrs : TRUE, ADescr>>})}
    [] g = "definition" -> {Defin(i, <<ADescr>>, n, p, f) : i \in TextsU, n \in {None} \cup {Tx(s) : s \in TextsU}, p \in Opt("why"), f \in Maps}
    [] g = "submission" -> {Submission(i, d, ms) : i \in TextsU, d \in TextsU,
                               ms \in {<<>>, <<AMapping>>, <<AMapping, Mapping("d2", "", "$[0]", "ldp_vc", "")>>, <<Mapping("d2", "", "$[0]", "ldp_vc", ""), AMapping>>}}
                           \cup {Submission("s", "d", [k \in 1..n |-> Mapping(ToString(k), "f", "$", "g", ToString(n - k))]) : n \in {5, 12, 40}}
KindOf(g) == IF g = "submission" THEN "submission" ELSE "definition"

(* documents with something wrong: a required member left out, a member of the wrong shape, a filter with two
   conditions, none, or another member; at every place the document has one *)
Num(v) == [t |-> "num", v |-> v]
Null == [t |-> "null"]
Wrong(kind, m) == {Bo(TRUE), Num(5)} \cup (IF Schema[kind][m][2] = "text" THEN {Ls(<<>>), Ls(<<Tx("x")>>), MEmpty} ELSE {Tx("x"), Tx("")})
                  \cup (IF Schema[kind][m][2] = "list of text" THEN {Ls(<<Num(5)>>), Ls(<<Tx("x"), Bo(TRUE)>>), Ls(<<Ls(<<Tx("x")>>)>>)} ELSE {})
                  \cup (IF Schema[kind][m][1] THEN {Null} ELSE {})
Others == {"minimum", "maximum", "enum", "not", "items", "contains", "minLength", "maxLength", "default", "value", "Const", "CONST", "constant", "regex", "exclusiveMinimum", "properties", "title", ""}
RECURSIVE Faults(_, _)
Faults(kind, j) ==
  LET sc == Schema[kind]
      drop == {[w |-> "without " \o m, j |-> Ob([x \in DOMAIN j.ms \ {m} |-> j.ms[x]])] : m \in {m \in DOMAIN j.ms : sc[m][1]}}
      bad == UNION {{[w |-> "wrong " \o m, j |-> Ob([j.ms EXCEPT ![m] = x])] : x \in Wrong(kind, m)} : m \in {m \in DOMAIN j.ms : sc[m][2] # "bool"}}
      badb == {[w |-> "wrong " \o m, j |-> Ob([j.ms EXCEPT ![m] = x])] : x \in {Tx("true"), Num(1), Ls(<<>>)}, m \in {m \in DOMAIN j.ms : sc[m][2] = "bool"}}
      extra == IF kind # "filter" THEN {}
               ELSE {[w |-> "filter with " \o x, j |-> Ob([y \in DOMAIN j.ms \cup {x} |-> IF y \in DOMAIN j.ms THEN j.ms[y] ELSE Tx("v")])] :
                        x \in (({"const", "pattern", "format"} \cup Others) \ DOMAIN j.ms)}
                    \cup {[w |-> "filter with only " \o x, j |-> Ob([y \in {"type", x} |-> IF y = x THEN Tx("v") ELSE Tx("string")])] : x \in Others}
                    \cup {[w |-> "filter without condition", j |-> Ob([type |-> Tx("string")])]}
      under == UNION {
        LET k == sc[m][2] v == j.ms[m] IN
        CASE k \in {"constraints", "filter", "nested"} -> {[w |-> f.w, j |-> Ob([j.ms EXCEPT ![m] = f.j])] : f \in Faults(k, v)}
          [] k \in {"list of descriptor", "list of field", "list of mapping"} ->
               UNION {{[w |-> f.w, j |-> Ob([j.ms EXCEPT ![m] = Ls([v.xs EXCEPT ![i] = f.j])])] : f \in Faults(ElemKind[k], v.xs[i])} : i \in 1..Len(v.xs)}
          [] k = "map of format" /\ v # MEmpty -> {[w |-> f.w, j |-> Ob([j.ms EXCEPT ![m] = Mp(v.k, f.j)])] : f \in Faults("format", v.x)}
          [] OTHER -> {} : m \in DOMAIN j.ms}
  IN drop \cup bad \cup badb \cup extra \cup under

FullField == CHOOSE f \in FieldsOf({Filter("pattern", "x")}, {Bo(TRUE)}, {Bo(FALSE)}) : f.ms.id # None /\ f.ms.predicate # None /\ f.ms.purpose # None /\ f.ms.name # None /\ Len(f.ms.path.xs) = 2
FullDescr == Descr("d1", Constr(Ls(<<BField, FullField>>), Tx("required")), Tx("n"), Tx("p"), Mp("jwt_vc", Ob([alg |-> Ls(<<Tx("ES256K")>>), proof_type |-> None])))
FaultyFrom(g) ==
  CASE g = "submission" -> {Submission("s", "p", <<AMapping>>), Submission("s", "p", <<AMapping, Mapping("d2", "x", "$[0]", "y", "$")>>)}
    [] g = "definition" -> {Defin("p", <<FullDescr>>, Tx("n"), Tx("w"), MEmpty), Defin("p", <<ADescr, FullDescr>>, None, None, None)}
                           \cup {Defin("p", <<Descr("d", Constr(Ls(<<[AField EXCEPT !.ms.filter = f]>>), None), None, None, None)>>, None, None, None) : f \in Filters}
    [] OTHER -> {}

Groups == {"field", "descriptor", "descriptors", "definition", "submission"}
Init == c \in [k : {"group"}, g : Groups]
Next == /\ c.k = "group"
        /\ \/ \E d \in Documents(c.g) : c' = [k |-> "doc", kind |-> KindOf(c.g), d |-> d]
           \/ \E d \in FaultyFrom(c.g) : \E f \in Faults(KindOf(c.g), Encode(d)) : c' = [k |-> "faulty", kind |-> KindOf(c.g), w |-> f.w, j |-> f.j]
Spec == Init /\ [][Next]_c

RoundTrips == c.k = "doc" => Decode(c.kind, Encode(c.d)) = c.d
FaultyRefused == c.k = "faulty" => Decode(c.kind, c.j) = Refused
Emit == CASE c.k = "doc" -> PrintT(ToJson([k |-> "doc", kind |-> c.kind, json |-> Encode(c.d)]))
          [] c.k = "faulty" -> PrintT(ToJson([k |-> "faulty", kind |-> c.kind, w |-> c.w, json |-> c.j]))
          [] OTHER -> TRUE
=============================================================================
