------------------------------ MODULE DifExch ------------------------------
(***************************************************************************)
(* Presentation Exchange matching (crates/dif-exch/src/matcher.rs).         *)
(*                                                                          *)
(* JSON values: [j |-> "text", s], [j |-> "num", v], [j |-> "bool", v],     *)
(* [j |-> "null"], [j |-> "arr", xs], [j |-> "obj", fs] with fs a sequence  *)
(* of <<name, value>> in name order.  Text is a sequence of symbols.        *)
(* Paths: [p |-> "path", steps] with steps [k |-> "name", n], [k |->        *)
(* "index", i], [k |-> "wild"], [k |-> "deep", n]; [p |-> "bad", n] is      *)
(* text that is no JSONPath.                                                *)
(* Filters: [f |-> "none"], [f |-> "const", s], [f |-> "pattern", r],       *)
(* [f |-> "badpattern"], [f |-> "format", n].                               *)
(* Regular expressions: see Ends.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(*************************** JSONPath **************************************)
Children(v) == CASE v.j = "arr" -> v.xs
                 [] v.j = "obj" -> Map(LAMBDA f : f[2], v.fs)
                 [] OTHER -> <<>>
Named(v, n) == IF v.j # "obj" THEN <<>>
               ELSE Map(LAMBDA f : f[2], SelectSeq(v.fs, LAMBDA f : f[1] = n))
RECURSIVE Descend(_, _)
Descend(v, n) == Named(v, n) \o Flat(Map(LAMBDA x : Descend(x, n), Children(v)))
Step(st, v) ==
  CASE st.k = "name" -> Named(v, st.n)
    [] st.k = "index" -> IF v.j # "arr" THEN <<>>
         ELSE LET i == IF st.i >= 0 THEN st.i + 1 ELSE Len(v.xs) + st.i + 1
              IN IF i \in 1..Len(v.xs) THEN <<v.xs[i]>> ELSE <<>>
    [] st.k = "wild" -> Children(v)
    [] st.k = "deep" -> Descend(v, st.n)
RECURSIVE Follow(_, _)
Follow(steps, vs) ==
  IF steps = <<>> THEN vs ELSE Follow(Tail(steps), Flat(Map(LAMBDA v : Step(Head(steps), v), vs)))
Select(path, doc) == Follow(path.steps, <<doc>>)

(*************************** filters ***************************************)
\* the text a number, boolean or text stands for
TextOf(v) == IF v.j = "text" THEN v.s ELSE v.v
Plain(v) == v.j \in {"text", "num", "bool"}
ConstMatch(s, v) ==
  CASE Plain(v) -> TextOf(v) = s
    [] v.j = "arr" -> \E i \in 1..Len(v.xs) : v.xs[i].j = "text" /\ v.xs[i].s = s
    [] OTHER -> FALSE

\* positions (0-based) at which a match of r that starts at i can end
RECURSIVE Ends(_, _, _), Closure(_, _, _), Repeated(_, _, _, _, _)
\* where lo to hi matches one after another can end
Repeated(r, s, I, lo, hi) ==
  LET J == UNION {Ends(r, s, i) : i \in I} IN
  IF hi = 0 \/ I = {} THEN (IF lo = 0 THEN I ELSE {})
  ELSE (IF lo = 0 THEN I ELSE {}) \cup Repeated(r, s, J, IF lo = 0 THEN 0 ELSE lo - 1, hi - 1)
Closure(r, s, I) == LET J == I \cup UNION {Ends(r, s, i) : i \in I} IN IF J = I THEN I ELSE Closure(r, s, J)
Ends(r, s, i) ==
  CASE r.r = "lit" -> IF i < Len(s) /\ s[i + 1] = r.c THEN {i + 1} ELSE {}
    [] r.r = "any" -> IF i < Len(s) /\ s[i + 1] # "U+000A" THEN {i + 1} ELSE {}
    [] r.r = "cls" -> IF i < Len(s) /\ s[i + 1] \in r.cs THEN {i + 1} ELSE {}
    [] r.r = "seq" -> UNION {Ends(r.b, s, k) : k \in Ends(r.a, s, i)}
    [] r.r = "alt" -> Ends(r.a, s, i) \cup Ends(r.b, s, i)
    [] r.r = "star" -> Closure(r.a, s, {i})
    [] r.r = "plus" -> UNION {Closure(r.a, s, {k}) : k \in Ends(r.a, s, i)}
    [] r.r = "opt" -> {i} \cup Ends(r.a, s, i)
    [] r.r = "rep" -> Repeated(r.a, s, {i}, r.lo, r.hi)
    [] r.r = "grp" -> Ends(r.a, s, i)
    [] r.r = "fold" -> IF i < Len(s) /\ s[i + 1] \in r.cs THEN {i + 1} ELSE {}
    [] r.r = "bol" -> IF i = 0 THEN {i} ELSE {}
    [] r.r = "eol" -> IF i = Len(s) THEN {i} ELSE {}
    [] r.r = "empty" -> {i}
Finds(r, s) == \E i \in 0..Len(s) : Ends(r, s, i) # {}
PatternMatch(r, v) ==
  CASE Plain(v) -> Finds(r, TextOf(v))
    [] v.j = "arr" -> \E i \in 1..Len(v.xs) : Plain(v.xs[i]) /\ Finds(r, TextOf(v.xs[i]))
    [] OTHER -> FALSE

\* dates: text values that carry what they say, see Date and Stamp below
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
ValidDate(d) == d.m \in 1..12 /\ d.d >= 1 /\ d.d <= DaysIn(d.y, d.m)
ValidStamp(d) == ValidDate(d) /\ d.h \in 0..23 /\ d.mi \in 0..59 /\ d.sec \in 0..59
                 /\ d.zone \in {"Z", "+00:00", "-05:30", "+14:00", ".5Z", ".123456789+00:00"} /\ d.sep = "T" /\ d.junk = ""
FormatMatch(n, v) ==
  IF v.j # "when" THEN FALSE
  ELSE CASE n = "date" -> v.w.k = "date" /\ ValidDate(v.w) /\ v.w.junk = ""
         [] n = "date-time" -> v.w.k = "stamp" /\ ValidStamp(v.w)
         [] OTHER -> FALSE

Matches(f, v) ==
  CASE f.f = "none" -> TRUE
    [] f.f = "const" -> ConstMatch(f.s, v)
    [] f.f = "pattern" -> PatternMatch(f.r, v)
    [] f.f = "format" -> FormatMatch(f.n, v)
    [] OTHER -> FALSE

(*************************** fields and constraints ************************)
RECURSIVE Decided(_, _)
\* the nodes selected by the first path that selects any; a bad path ends the search
Decided(paths, doc) ==
  IF paths = <<>> THEN [r |-> "nothing"]
  ELSE IF Head(paths).p = "bad" THEN [r |-> "invalid"]
  ELSE LET ns == Select(Head(paths), doc) IN
       IF ns = <<>> THEN Decided(Tail(paths), doc) ELSE [r |-> "value", v |-> ns[1]]
Selects(paths, doc) == \E i \in 1..Len(paths) : paths[i].p = "path" /\ Select(paths[i], doc) # <<>>
FieldOk(fd, doc) ==
  LET d == Decided(fd.paths, doc) IN
  CASE d.r = "value" -> Matches(fd.filter, d.v)
    [] OTHER -> fd.optional = "true" /\ ~Selects(fd.paths, doc)
Satisfied(fields, doc) == \A i \in 1..Len(fields) : FieldOk(fields[i], doc)
=============================================================================
