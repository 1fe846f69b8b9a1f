----------------------------- MODULE StatusList -----------------------------
(***************************************************************************)
(* The status list published for a log of status records                    *)
(* (crates/status/src/bitstring.rs).  The log grows by one record at a      *)
(* time; a record belongs to the log entry (the credential) of the one      *)
(* before it or starts a new one.  The list is then generated for each      *)
(* configuration.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Deep

Length == 131072                    \* entries of a one-bit list: the least a list may have
Purposes == {"revocation", "suspension", "message"}
Slots(size) == Length \div size
\* positions, by name: the driver knows the numbers for a size
Indexes == {"0", "1", "2", "last", "beyond", "huge"}
Values == {0, 1, 2, 3, 5, 255}
Sizes == {1, 2, 3, 8, 16}
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)

VARIABLES log
vars == log

\* what a record says about its credential in a list of that purpose and size
Says(r, c) == IF c.purpose = "message" THEN r.value ELSE IF r.value = 0 THEN 0 ELSE 1
Fits(r, c) == r.index \notin {"beyond", "huge"} /\ Says(r, c) < Pow(c.size)
Relevant(l, c) == SelectSeq(l, LAMBDA r : r.purpose = c.purpose)
Refused(l, c) == \E i \in 1..Len(Relevant(l, c)) : ~Fits(Relevant(l, c)[i], c)
At(l, c, ix) == LET m == SelectSeq(Relevant(l, c), LAMBDA r : r.index = ix) IN IF m = <<>> THEN 0 ELSE Says(m[Len(m)], c)
List(l, c) == [ix \in {r.index : r \in {Relevant(l, c)[i] : i \in 1..Len(Relevant(l, c))}} |-> At(l, c, ix)]
Configs == {[purpose |-> p, size |-> s] : p \in {"revocation", "suspension"}, s \in {1}} \cup {[purpose |-> "message", size |-> s] : s \in Sizes}

Records == CASE Len(log) = 0 -> {[purpose |-> p, index |-> ix, value |-> v, new |-> TRUE] : p \in Purposes, ix \in Indexes, v \in Values}
             [] Len(log) = 1 -> {[purpose |-> p, index |-> ix, value |-> v, new |-> nw] : p \in Purposes, ix \in {"0", "last", "huge"}, v \in {0, 1, 2}, nw \in BOOLEAN}
             [] OTHER -> {[purpose |-> p, index |-> ix, value |-> v, new |-> TRUE] : p \in {log[1].purpose, log[2].purpose}, ix \in {log[1].index, "1"}, v \in {0, 3}}
Init == log = <<>>
Next == Len(log) < (IF Deep THEN 3 ELSE 2) /\ \E r \in Records : log' = Append(log, r)
Spec == Init /\ [][Next]_vars

\* a record changes its own credential's entry in its own list, and nothing else
Isolated == [][LET r == log'[Len(log')] IN \A c \in Configs : \A ix \in {"0", "1", "2", "last"} :
                 (r.purpose # c.purpose \/ r.index # ix) => At(log', c, ix) = At(log, c, ix)]_vars
Latest == [][LET r == log'[Len(log')] IN \A c \in Configs : r.purpose = c.purpose => At(log', c, r.index) = Says(r, c)]_vars
Emit == PrintT(ToJson([log |-> log, lists |-> {[c |-> c, refused |-> Refused(log, c), list |-> List(log, c)] : c \in Configs}]))
=============================================================================
