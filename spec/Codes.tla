------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* Generated codes (crates/core/src/gen.rs, pkce.rs).  The state is what    *)
(* has been handed out so far; each draw must be well-formed and new.  The  *)
(* module validates recorded draws: Trace is the sequence of draws of one   *)
(* run of the real generators, each a sequence of characters (base64 text   *)
(* is given decoded; undecodable text is given as <<>>).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(Trace)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Unreserved == Upper \cup Lower \cup Digits \cup {"-", ".", "_", "~"}

\* Draws in bulk are recorded as how many there were and how many differed: [kind |-> "bulk", n, distinct, bad], where
\* bad counts those that are not of their generator's form.
AllNew(d) == d.distinct = d.n /\ d.bad = 0

WellFormed(kind, s) ==
  CASE kind = "code" -> Len(s) = 32
    [] kind = "pin" -> Len(s) = 6 /\ \A i \in 1..6 : s[i] \in Digits
    [] kind = "verifier" -> Len(s) \in 43..128 /\ \A i \in 1..Len(s) : s[i] \in Unreserved

\* Equal draws carry equal ids and a draw not seen before carries the next id, so the set of what has been handed
\* out is 1..given.
VARIABLES l,      \* draws seen
          given   \* distinct codes and verifiers handed out
vars == <<l, given>>
Init == l = 0 /\ given = 0
Draw == /\ l < N
        /\ LET d == Trace[l + 1] IN
             /\ IF d.kind = "bulk" THEN AllNew(d) ELSE WellFormed(d.kind, d.s)
             /\ d.kind \notin {"pin", "bulk"} => d.id \notin 1..given
             /\ given' = IF d.kind \in {"pin", "bulk"} THEN given ELSE d.id
        /\ l' = l + 1
Next == Draw
Spec == Init /\ [][Next]_vars

NeverRepeats == given = Cardinality({i \in 1..l : Trace[i].kind \notin {"pin", "bulk"}})

\* how varied the draws of each generator are, evaluated once on the whole trace
Of(g) == SelectSeq(Trace, LAMBDA d : d.g = g /\ d.kind # "bulk")
At(ds, i) == {ds[k].s[i] : k \in 1..Len(ds)}
Varied(g) ==
  LET ds == Of(g)
      w == IF g = "tx_code" THEN 6 ELSE 32
      chars == UNION {At(ds, i) : i \in 1..w}
      same(i, j) == Cardinality({k \in 1..Len(ds) : ds[k].s[i] = ds[k].s[j]})
  IN /\ \A i \in 1..w : Cardinality(At(ds, i)) >= (IF g = "tx_code" THEN 10 ELSE 25)
     /\ Cardinality(chars) >= (IF g = "tx_code" THEN 10 ELSE 60)
     /\ \A i \in 1..w : \A j \in (i + 1)..w : same(i, j) * 2 < Len(ds)
     \* a character does not keep its neighbours, or the same place of the next draw, from being the same or make them so
     /\ \A gap \in 1..(IF g = "tx_code" THEN 3 ELSE 8) : \E i \in 1..(w - gap) : same(i, i + gap) > 0
     /\ \A i \in 1..w : Cardinality({k \in 1..(Len(ds) - 1) : ds[k].s[i] = ds[k + 1].s[i]}) * 2 < Len(ds)
Generators == {Trace[i].g : i \in 1..N}
Weak == IF TLCGet("stats").diameter - 1 # N THEN {} ELSE {g \in Generators : ~Varied(g)}
Post == PrintT(ToJson([accepted |-> TLCGet("stats").diameter - 1, of |-> N, weak |-> Weak]))
=============================================================================
