----------------------------- MODULE KindQuota -----------------------------
(***************************************************************************)
(* Kind (a string or an object) and Quota (one item or many) as documents   *)
(* and as state machines (crates/core/src/lib.rs).                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Deep

Texts == {<<>>, <<"a">>, <<"[", "]">>, <<"{", "}">>, <<"n", "u", "l", "l">>, <<"U+00E9", "\"">>}
Objs == {[j |-> "obj", a |-> s, b |-> b] : s \in {<<>>, <<"a">>}, b \in {"-", "0", "255"}}
Str(s) == [j |-> "text", s |-> s]

\* Quota state: [q |-> "one", x] or [q |-> "many", xs]
Add(q, x) == IF q.q = "one" THEN [q |-> "many", xs |-> <<q.x, x>>] ELSE [q EXCEPT !.xs = Append(@, x)]
Items(q) == IF q.q = "one" THEN <<q.x>> ELSE q.xs
View(q) == [wire |-> q, len |-> Len(Items(q)), one |-> q.q = "one", many |-> q.q = "many",
            empty |-> Items(q) = <<>>]

ItemsOf(of) == CASE of = "text" -> {Str(s) : s \in Texts}
                 [] of = "obj" -> Objs
                 [] of = "kind" -> {Str(<<"a">>), Str(<<>>)} \cup {[j |-> "obj", a |-> <<"a">>, b |-> "-"]}
DefaultOf(of) == CASE of = "text" -> Str(<<>>) [] of = "obj" -> [j |-> "obj", a |-> <<>>, b |-> "-"] [] of = "kind" -> Str(<<>>)
Few(of) == CASE of = "text" -> {Str(<<"a">>), Str(<<>>), Str(<<"[", "]">>)}
             [] of = "obj" -> {[j |-> "obj", a |-> <<"a">>, b |-> "-"], [j |-> "obj", a |-> <<>>, b |-> "255"]}
             [] of = "kind" -> ItemsOf("kind")

\* a long life: additions go round a few items
Around(o, n) == LET few == CASE o = "text" -> <<Str(<<"a">>), Str(<<>>), Str(<<"[", "]">>), Str(<<"a">>), Str(<<"b">>)>>
                             [] o = "obj" -> <<[j |-> "obj", a |-> <<"a">>, b |-> "-"], [j |-> "obj", a |-> <<>>, b |-> "255"], [j |-> "obj", a |-> <<>>, b |-> "-"]>>
                             [] o = "kind" -> <<Str(<<"a">>), [j |-> "obj", a |-> <<"a">>, b |-> "-"], Str(<<>>), Str(<<"a">>)>>
                IN few[1 + (n % Len(few))]
LongLife == IF Deep THEN 260 ELSE 70

VARIABLES mode, of, start, q, hist
vars == <<mode, of, start, q, hist>>
Kinds == {Str(s) : s \in Texts} \cup Objs
Init ==
  \/ /\ mode = "quota" /\ of \in {"text", "obj", "kind"}
     /\ start \in {[s |-> "default"]} \cup {[s |-> "one", x |-> x] : x \in ItemsOf(of)}
                  \cup {[s |-> "many", xs |-> xs] : xs \in {<<>>} \cup {<<x>> : x \in ItemsOf(of)} \cup {<<x, y>> : x \in Few(of), y \in Few(of)}}
     /\ q = (CASE start.s = "default" -> [q |-> "one", x |-> DefaultOf(of)]
               [] start.s = "one" -> [q |-> "one", x |-> start.x]
               [] OTHER -> [q |-> "many", xs |-> start.xs])
     /\ hist = <<>>
  \/ /\ mode = "long" /\ of \in {"text", "obj", "kind"} /\ hist = <<>>
     /\ start \in {[s |-> "default"], [s |-> "many", xs |-> <<>>], [s |-> "one", x |-> Around(of, 0)]}
     /\ q = (CASE start.s = "default" -> [q |-> "one", x |-> DefaultOf(of)]
               [] start.s = "one" -> [q |-> "one", x |-> start.x]
               [] OTHER -> [q |-> "many", xs |-> start.xs])
  \/ /\ mode = "kind" /\ of = "kind" /\ hist = <<>> /\ q = [q |-> "none"]
     /\ start \in {[s |-> "default"]} \cup {[s |-> "kind", x |-> k] : k \in Kinds}
AddSome == /\ mode = "quota" /\ Len(hist) < (IF Deep THEN 4 ELSE 2)
           /\ \E x \in Few(of) : q' = Add(q, x) /\ hist' = Append(hist, [x |-> x, before |-> q])
           /\ UNCHANGED <<mode, of, start>>
AddOn == /\ mode = "long" /\ Len(hist) < LongLife
         /\ LET x == Around(of, Len(hist)) IN q' = Add(q, x) /\ hist' = Append(hist, [x |-> x, before |-> q])
         /\ UNCHANGED <<mode, of, start>>
Next == AddSome \/ AddOn
Spec == Init /\ [][Next]_vars

\* adding keeps what was there, in order, and puts the new item last
Grows == [][Items(q') = Append(Items(q), hist'[Len(hist')].x) /\ q'.q = "many"]_vars
Shape == mode # "kind" => /\ (q.q = "one" => Len(Items(q)) = 1)
                           /\ View(q).one # View(q).many
                           /\ View(q).empty = (View(q).len = 0)

RECURSIVE Views(_, _)
Views(h, last) == IF h = <<>> THEN <<View(last)>> ELSE <<View(h[1].before)>> \o Views(Tail(h), last)
Emit ==
  IF mode = "long" /\ Len(hist) < LongLife THEN TRUE ELSE
  IF mode = "kind" THEN PrintT(ToJson([mode |-> "kind", start |-> start]))
  ELSE PrintT(ToJson([mode |-> "quota", of |-> of, start |-> start, adds |-> [i \in 1..Len(hist) |-> hist[i].x], views |-> Views(hist, q)]))
=============================================================================
