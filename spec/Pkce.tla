-------------------------------- MODULE Pkce --------------------------------
(* PKCE (RFC 7636): S256 is an uninterpreted injective function of the       *)
(* verifier; a challenge is met by exactly the verifier it was made from.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Deep
VARIABLE v
Syms == {"a", "Z", "0", "-", ".", "_", "~", "U+00E9", " ", "\""}
Seqs == {<<>>} \cup {<<x>> : x \in Syms} \cup {<<x, y>> : x \in Syms, y \in Syms}
        \cup (IF Deep THEN {<<x, y, z>> : x \in Syms, y \in Syms, z \in Syms} ELSE {})
S256(x) == [s256 |-> x]
Met(challenge, verifier) == S256(verifier) = challenge
Init == v \in [v : Seqs, times : {1, 22, 43, 64, 128}]
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
Injective == \A w \in {<<>>, <<"a">>} : Met(S256(v.v), w) <=> v.v = w
Emit == PrintT(ToJson(v))
=============================================================================
