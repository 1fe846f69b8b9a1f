-------------------------------- MODULE Mdoc --------------------------------
(***************************************************************************)
(* Issuing an mdoc (crates/iso-mdl): every element of the dataset becomes   *)
(* an item with a digest id of its own in its namespace, and the mobile     *)
(* security object maps that id to the digest of the item.  The random      *)
(* source's draws are dictated: repeated, negative and extreme ones.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Deep

Draws == {"0", "1", "-1", "max", "min"}
\* what a draw becomes as a digest id: non-negative, at most 2^31-1
Id(d) == CASE d = "0" -> "0" [] d = "1" -> "1" [] d = "-1" -> "max" [] d = "max" -> "max" [] d = "min" -> "0"
Values == {"text", "empty", "int", "big", "neg", "float", "true", "null", "list", "object", "nested", "uni"}

\* dataset: the value of each element, per namespace; a namespace may be something else than an object
Spaces == {<<>>, <<"text">>, <<"text", "int">>, <<"object", "list", "null">>}
Sets == {<<s>> : s \in [1..0 -> Values] \cup {<<v>> : v \in Values} \cup {<<v, w>> : v, w \in Values}}
        \cup {<<s, t>> : s, t \in Spaces} \cup (IF Deep THEN {<<s, t, u>> : s, t, u \in Spaces} ELSE {}) \cup {<<>>}
Odd == {"text", "int", "null", "list", "true"}

VARIABLES ds, odd, script
vars == <<ds, odd, script>>
Scripts == {<<>>} \cup {<<a, b>> : a, b \in Draws} \cup {<<a, b, c>> : a, b, c \in IF Deep THEN Draws ELSE {"0", "min", "-1"}}
Init == \/ ds \in Sets /\ odd = "none" /\ script \in {<<>>, <<"0", "0", "min">>, <<"-1", "max", "max", "-1">>}
        \/ ds \in {<<<<"text", "int">>>>, <<<<"text", "int", "null">>>>, <<<<"text", "int">>, <<"text", "text">>>>} /\ odd = "none" /\ script \in Scripts
        \/ ds \in {<<>>, <<<<"text">>>>} /\ odd \in Odd /\ script = <<>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ids given out in order: a draw already used in the namespace is drawn again
RECURSIVE Give(_, _, _)
Give(k, draws, used) ==
  IF k = 0 THEN <<>>
  ELSE IF draws = <<>> THEN <<"?">> \o Give(k - 1, <<>>, used)
  ELSE IF Id(draws[1]) \in used THEN Give(k, Tail(draws), used)
  ELSE <<Id(draws[1])>> \o Give(k - 1, Tail(draws), used \cup {Id(draws[1])})
Ids == IF ds = <<>> THEN <<>> ELSE Give(Len(ds[1]), script, {})
Distinct == \A i, j \in 1..Len(Ids) : i # j /\ Ids[i] # "?" => Ids[i] # Ids[j]
Elements == [i \in 1..Len(ds) |-> Len(ds[i])]
Emit == PrintT(ToJson([ds |-> ds, odd |-> odd, script |-> script, refused |-> odd # "none", elements |-> Elements]))
=============================================================================
